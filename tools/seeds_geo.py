HEAD = '''
package geodata_test

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

var _ = json.Marshal
var _ = fmt.Sprint
var _ = math.Abs
var _ = reflect.DeepEqual
var _ geodata.GeoData
var _ s2.CellID
var _ spb.Value
var _ = geom.XY
var _ geojson.Feature

func num(f float64) *spb.Value { return &spb.Value{Kind: &spb.Value_NumberValue{NumberValue: f}} }
func txt(f string) *spb.Value { return &spb.Value{Kind: &spb.Value_StringValue{StringValue: f}} }

func decoded(t *testing.T, b []byte, err error) *geojson.FeatureCollection {
	if err != nil {
		t.Fatal(err)
	}
	fc := &geojson.FeatureCollection{}
	if err := json.Unmarshal(b, fc); err != nil {
		t.Fatal(err)
	}
	return fc
}

'''
T = 'index/geodata/tools.go'
def ix(body): return HEAD + body
SEEDS = [
 dict(id='c32-import-resets-properties', property='C32', pkg='index/geodata',
  needs='a destination that already holds properties under other names',
  breaks='importing a feature with properties throws away the properties the destination already had',
  edits=[(T, '''	if gd.Properties == nil && len(m) > 0 {
		gd.Properties = make(map[string]*spb.Value)
	}''', '''	if len(m) > 0 {
		gd.Properties = make(map[string]*spb.Value, len(m))
	}''')],
  test=ix('''func TestDemo(t *testing.T) {
	gd := &geodata.GeoData{Properties: map[string]*spb.Value{"a": num(1)}}
	f := &geojson.Feature{Properties: map[string]interface{}{"b": 2.0}}
	if err := geodata.PropertiesToGeoData(f, gd); err != nil {
		t.Fatal(err)
	}
	if gd.Properties["a"].GetNumberValue() != 1 || gd.Properties["b"].GetNumberValue() != 2 {
		t.Fatal(gd.Properties)
	}
}
''')),
 dict(id='c32-empty-string-dropped', property='C32', pkg='index/geodata',
  needs='a string property whose value is empty',
  breaks='an exported feature lacks the string properties that are empty',
  edits=[(T, '''			res[k] = x.StringValue
''', '''			if x.StringValue == "" {
				continue
			}
			res[k] = x.StringValue
'''.replace('			res[k] = x.StringValue', '			res[k] = v.GetStringValue()'))],
  test=ix('''func TestDemo(t *testing.T) {
	m := geodata.PropertiesToJSONMap(map[string]*spb.Value{"a": txt(""), "b": txt("x")})
	if v, ok := m["a"]; !ok || v != "" || m["b"] != "x" {
		t.Fatal(m)
	}
}
''')),
 dict(id='c32-integers-through-int32', property='C32', pkg='index/geodata',
  needs='an integer property beyond 32 bits',
  breaks='integer properties that do not fit 32 bits are stored as other numbers',
  edits=[(T, 'NumberValue: float64(tv)}}', 'NumberValue: float64(int32(tv))}}')],
  test=ix('''func TestDemo(t *testing.T) {
	gd := &geodata.GeoData{}
	f := &geojson.Feature{Properties: map[string]interface{}{"b": 1 << 33}}
	if err := geodata.PropertiesToGeoData(f, gd); err != nil {
		t.Fatal(err)
	}
	if gd.Properties["b"].GetNumberValue() != 1<<33 {
		t.Fatal(gd.Properties)
	}
}
''')),
 dict(id='c31-multipolygon-carried-over', property='C31', pkg='index/geodata',
  needs='two multipolygons exported in one collection',
  breaks='the polygons of a multipolygon also appear in the multipolygons exported after it',
  edits=[(T, '''	fc := geojson.FeatureCollection{}
''', '''	fc := geojson.FeatureCollection{}
	mp := geom.NewMultiPolygon(geom.XY)
'''), (T, '''			mp := geom.NewMultiPolygon(geom.XY)
			for _, poly''', '''			for _, poly''')],
  test=ix('''func TestDemo(t *testing.T) {
	multi := func(d float64) *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: []*geodata.Geometry{
			{Type: geodata.Geometry_POLYGON, Coordinates: []float64{d, 0, d + 1, 0, d + 1, 1, d, 0}}}}}
	}
	b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{multi(1), multi(5)})
	fc := decoded(t, b, err)
	for i, f := range fc.Features {
		if mp := f.Geometry.(*geom.MultiPolygon); mp.NumPolygons() != 1 || mp.FlatCoords()[0] != float64(1+4*i) {
			t.Fatal(i, mp.FlatCoords())
		}
	}
}
''')),
 dict(id='c31-multilines-joined', property='C31', pkg='index/geodata',
  needs='a feature made of several lines',
  breaks='a MultiLineString is stored as one line joining its parts',
  edits=[(T, '	case *geom.LineString:\n', '	case *geom.LineString, *geom.MultiLineString:\n')],
  test=ix('''func TestDemo(t *testing.T) {
	gd := &geodata.GeoData{}
	g := geom.NewMultiLineStringFlat(geom.XY, []float64{1, 2, 3, 4, 50, 60, 70, 80}, []int{4, 8})
	if err := geodata.GeomToGeoData(g, gd); err == nil {
		t.Fatal(gd.Geometry)
	}
}
''')),
 dict(id='c31-multipolygon-as-one-ring', property='C31', pkg='index/geodata',
  needs='a feature that is a multipolygon',
  breaks='a multipolygon is stored as one polygon whose ring joins the rings of all its parts',
  edits=[(T, '''		//case *geom.MultiPolygon:
		//	geo.Type = geodata.Geometry_MULTIPOLYGON
''', '''
	case *geom.MultiPolygon:
		geo.Type = Geometry_POLYGON
		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
''')],
  test=ix('''func TestDemo(t *testing.T) {
	gd := &geodata.GeoData{}
	g := geom.NewMultiPolygonFlat(geom.XY, []float64{1, 2, 3, 4, 5, 2, 1, 2, 50, 60, 70, 80, 90, 60, 50, 60}, [][]int{{8}, {16}})
	if err := geodata.GeomToGeoData(g, gd); err == nil && gd.Geometry.Type != geodata.Geometry_MULTIPOLYGON {
		t.Fatal(gd.Geometry)
	}
}
''')),
 dict(id='c28-closed-line-bounds', property='C28', pkg='index/geodata',
  needs='a line whose first and last positions are the same and whose last but one is an extreme',
  breaks='the rectangle of a closed line is computed without its last two positions',
  edits=[(T, '''			pl[i/2] = s2.PointFromLatLng(ll)
		}

		return pl.RectBound(), nil
''', '''			pl[i/2] = s2.PointFromLatLng(ll)
		}
		if n := len(pl) - 1; n > 2 && pl[0] == pl[n] {
			// a closed line is bounded by its distinct positions
			pl = pl[:n-1]
		}

		b := pl.RectBound()
		return b, nil
''')],
  test=ix('''func TestDemo(t *testing.T) {
	gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{1, 1, 2, 1, 2, 2, 1, 5, 1, 1}}}
	r, err := geodata.GeoDataToRect(gd)
	if err != nil || !r.ContainsLatLng(s2.LatLngFromDegrees(4.9, 1.01)) {
		t.Fatal(r, err)
	}
}
''')),
 dict(id='c29-line-of-points-in-place', property='C29', pkg='index/geodata',
  needs='a first point whose coordinates are a slice of a longer array',
  breaks='joining points to a line overwrites the memory behind the coordinates of the first point',
  edits=[(T, '''			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
''', '''			if flatCoords == nil {
				flatCoords = g.Geometry.Coordinates
				continue
			}
			flatCoords = append(flatCoords, g.Geometry.Coordinates[0], g.Geometry.Coordinates[1])
''')],
  test=ix('''func TestDemo(t *testing.T) {
	all := []float64{1, 2, 3, 4, 5, 6}
	var gs []*geodata.GeoData
	for _, i := range []int{0, 4, 2} {
		gs = append(gs, &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: all[i : i+2]}})
	}
	if _, err := geodata.PointsToGeoJSONPolyLines(gs); err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(all, []float64{1, 2, 3, 4, 5, 6}) {
		t.Fatal(all)
	}
}
''')),
 dict(id='c30-odd-loop', property='C30', pkg='index/geodata',
  needs='a loop from an odd number of coordinates, at least seven',
  breaks='building a loop from an odd number of coordinates panics instead of giving none',
  edits=[('index/geodata/loop.go', 'if len(c)%2 != 0 || len(c) < 2*3 {', 'if len(c)/2 < 3 {')],
  test=ix('''func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if l := geodata.LoopFromCoordinates([]float64{1, 1, 2, 1, 2, 2, 1}); l != nil {
		t.Fatal(l)
	}
}
''')),
 dict(id='c31-feature-reused', property='C31', pkg='index/geodata',
  needs='a collection where a feature is followed by one of a kind whose export keeps the geometry',
  breaks='the features of a collection share one geometry object, so all are exported as the last one',
  edits=[(T, '''	fc := geojson.FeatureCollection{}
	for _, g := range geos {
''', '''	fc := geojson.FeatureCollection{}
	fs := make([]geojson.Feature, 1, len(geos)+1)
	for _, g := range geos {
'''), (T, '''		f := &geojson.Feature{}
		switch g.Geometry.Type {
		case Geometry_POINT:
			ng''', '''		f := &fs[len(fs)-1]
		switch g.Geometry.Type {
		case Geometry_POINT:
			ng'''), (T, '''		fc.Features = append(fc.Features, f)
''', '''		fc.Features = append(fc.Features, f)
		if f.Properties["shared"] == nil {
			fs = append(fs, geojson.Feature{})
		}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	pt := func(d float64) *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{d, 0}}, Properties: map[string]*spb.Value{"shared": num(1)}}
	}
	b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{pt(1), pt(5)})
	fc := decoded(t, b, err)
	for i, f := range fc.Features {
		if p := f.Geometry.(*geom.Point); p.X() != float64(1+4*i) {
			t.Fatal(i, p.FlatCoords())
		}
	}
}
''')),
 dict(id='c31-part-thought-covered', property='C31', pkg='index/geodata',
  needs='a multipolygon of at least two parts of which a later one has a smaller cover',
  breaks='the cover of a multipolygon lacks the cells of parts whose cover shares its first cell',
  edits=[(T, '''				return nil, errors.Wrap(err, "can't cover multipolygon")
			}

			cu = append(cu, cup...)
''', '''				return nil, errors.Wrap(err, "can't cover multipolygon")
			}
			if i > 0 && len(cup) > 0 && cu.ContainsCellID(cup[0]) {
				// this part is covered already
				continue
			}

			cu = append(cu, cup...)
			cu.Normalize()
'''.replace("			cu.Normalize()\n", "")), (T, 'for _, g := range gd.Geometry.Geometries {', 'for i, g := range gd.Geometry.Geometries {')],
  test=ix('''func TestDemo(t *testing.T) {
	sq := func(x, w float64) *geodata.Geometry {
		return &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: []float64{x, 0.1, x + w, 0.1, x + w, 0.1 + w, x, 0.1 + w, x, 0.1}}
	}
	cov := &s2.RegionCoverer{MinLevel: 5, MaxLevel: 10, MaxCells: 20}
	for i := 0; i < 40; i++ {
		x := 1 + float64(i)/7
		gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: []*geodata.Geometry{sq(x, 1), sq(x+0.9, 2)}}}
		cu, err := gd.Cover(cov)
		if err != nil {
			t.Fatal(err)
		}
		one, err := (&geodata.GeoData{Geometry: sq(x+0.9, 2)}).Cover(cov)
		if err != nil {
			t.Fatal(err)
		}
		have := map[s2.CellID]bool{}
		for _, c := range cu {
			have[c] = true
		}
		for _, c := range one {
			if !have[c] {
				t.Fatal("missing", c)
			}
		}
	}
}
''')),
]
