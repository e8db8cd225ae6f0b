package client

import (
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

func geo(name string) *geodata.GeoData
func geometry(name string) *geodata.Geometry
func coverer() *s2.RegionCoverer
func floats(name string) []float64
func position(n int) int
func parts(first bool) ([]*geodata.Geometry, *geodata.Geometry)
func must(prop, what string, ok bool, msg string)
func inputs()
func isRect(op string, c []float64, typ geodata.Geometry_Type, r s2.Rect)
func isGeom(op string, c []float64, typ geodata.Geometry_Type, parts []*geodata.Geometry, g geom.T)
func geos(first bool) ([]*geodata.GeoData, *geodata.GeoData)
func isCollection(op string, gs []*geodata.GeoData, g *geodata.GeoData, c []float64, typ geodata.Geometry_Type, parts []*geodata.Geometry, props map[string]*spb.Value, data []byte)
func summariseProps()
func flatGeom(kind string, first bool) geom.T
func isStored(op string, c []float64)
func isLoop(op string, c []float64, l *s2.Loop)
func isPolyline(op string, gs []*geodata.GeoData, g *geodata.GeoData, c []float64, first map[string]*spb.Value, data []byte)
func same(a, b interface{}) bool
func props(name string) (map[string]*spb.Value, string, *spb.Value)
func jsonProps(name string) (map[string]interface{}, string, interface{})
func otherKey() string
func dest()
func isCover(op, kind string, c []float64, typ geodata.Geometry_Type, rc *s2.RegionCoverer, cu s2.CellUnion, among bool)

// valid: the operation accepted g.
func valid(op string, g *geodata.Geometry) {
	must("C30", "nil:"+op, g != nil, "a missing geometry is accepted")
	n := len(g.Coordinates)
	switch g.Type {
	case geodata.Geometry_POINT:
		must("C30", "point:"+op, n >= 2 && n%2 == 0, "a point without one longitude and one latitude is accepted")
	case geodata.Geometry_POLYGON:
		must("C30", "polygon:"+op, n >= 6 && n%2 == 0, "a polygon with less than three positions or an odd number of coordinates is accepted")
	case geodata.Geometry_LINESTRING:
		must("C30", "line:"+op, n >= 4 && n%2 == 0, "a line with less than two positions or an odd number of coordinates is accepted")
	case geodata.Geometry_MULTIPOLYGON:
		must("C30", "none:"+op, len(g.Geometries) > 0, "a multipolygon without polygon is accepted")
		p := g.Geometries[position(len(g.Geometries))]
		must("C30", "part:"+op, p != nil, "a multipolygon with a missing polygon is accepted")
		m := len(p.Coordinates)
		must("C30", "parts:"+op, m >= 6 && m%2 == 0, "a multipolygon with a polygon of less than three positions or an odd number of coordinates is accepted")
	default:
		must("C31", "unknown:"+op, false, "a geometry of an undefined kind is accepted")
	}
}

func Check() {
	panics("C30")
	g := geometry("geometry")
	inputs()
	if geodata.CheckGeometry(g) == nil {
		valid("check", g)
	}
}

func covered(op, kind string, gd *geodata.GeoData, rc *s2.RegionCoverer, cu s2.CellUnion, err error) {
	if err != nil {
		return
	}
	valid(op, gd.Geometry)
	if gd.Geometry.Type != geodata.Geometry_MULTIPOLYGON {
		isCover(op, kind, gd.Geometry.Coordinates, gd.Geometry.Type, rc, cu, false)
	}
}

func given() (*geodata.GeoData, *s2.RegionCoverer) {
	panics("C30")
	gd, rc := geo("geo"), coverer()
	inputs()
	return gd, rc
}

func Cover() {
	gd, rc := given()
	cu, err := gd.Cover(rc)
	covered("cover", "Covering", gd, rc, cu, err)
}

func InteriorCover() {
	gd, rc := given()
	cu, err := gd.InteriorCover(rc)
	covered("interior", "InteriorCovering", gd, rc, cu, err)
}

func CoverUnion() {
	gd, rc := given()
	cu, err := geodata.GeoDataToCoverCellUnion(gd, rc)
	covered("union", "Covering", gd, rc, cu, err)
}

// ofParts makes a multipolygon of any number of polygons, of which p is the
// first or the last.
func ofParts(first bool) (gd *geodata.GeoData, p *geodata.Geometry) {
	gd = geo("geo")
	if gd.Geometry == nil {
		stop()
	}
	ps, p := parts(first)
	gd.Geometry.Type = geodata.Geometry_MULTIPOLYGON
	gd.Geometry.Geometries = ps
	return gd, p
}

func multi(op, kind string, first bool) {
	panics("C30")
	rc := coverer()
	gd, p := ofParts(first)
	inputs()
	var cu s2.CellUnion
	var err error
	if kind == "Covering" {
		cu, err = gd.Cover(rc)
	} else {
		cu, err = gd.InteriorCover(rc)
	}
	if err != nil {
		return
	}
	must("C30", "part:"+op, p != nil, "a multipolygon with a missing polygon is accepted")
	m := len(p.Coordinates)
	must("C30", "parts:"+op, m >= 6 && m%2 == 0, "a multipolygon with a polygon of less than three positions or an odd number of coordinates is accepted")
	isCover(op, kind, p.Coordinates, geodata.Geometry_POLYGON, rc, cu, true)
}

func MultiCover()        { multi("multicover", "Covering", true) }
func MultiCoverLast()    { multi("multicover", "Covering", false) }
func MultiInterior()     { multi("multiinterior", "InteriorCovering", true) }
func MultiInteriorLast() { multi("multiinterior", "InteriorCovering", false) }

func Rect() {
	gd, _ := given()
	r, err := geodata.GeoDataToRect(gd)
	if err == nil {
		valid("rect", gd.Geometry)
		isRect("rect", gd.Geometry.Coordinates, gd.Geometry.Type, r)
	}
}

func Geom() {
	gd, _ := given()
	g, err := geodata.GeoDataToGeom(gd)
	if err == nil {
		valid("geom", gd.Geometry)
		isGeom("geom", gd.Geometry.Coordinates, gd.Geometry.Type, gd.Geometry.Geometries, g)
	}
}

func collection(first bool) {
	panics("C30")
	gs, g := geos(first)
	inputs()
	summariseProps()
	data, err := geodata.ToGeoJSONFeatureCollection(gs)
	if err == nil {
		valid("collection", g.Geometry)
		isCollection("collection", gs, g, g.Geometry.Coordinates, g.Geometry.Type, g.Geometry.Geometries, g.Properties, data)
	}
}

func Collection()     { collection(true) }
func CollectionLast() { collection(false) }

// ToJSON: one of the properties, among any others, is exported.
func ToJSON() {
	panics("C32")
	src, k, v := props("props")
	inputs()
	out := geodata.PropertiesToJSONMap(src)
	got, ok := out[k]
	switch x := v.GetKind().(type) {
	case *spb.Value_NumberValue:
		f, is := got.(float64)
		must("C32", "number:export", ok && is && same(f, x.NumberValue), "a number property is dropped or changed when exported")
	case *spb.Value_StringValue:
		f, is := got.(string)
		must("C32", "string:export", ok && is && same(f, x.StringValue), "a string property is dropped or changed when exported")
	case *spb.Value_BoolValue:
		f, is := got.(bool)
		must("C32", "bool:export", ok && is && same(f, x.BoolValue), "a boolean property is dropped or changed when exported")
	}
}

// FromJSON: one of the properties of a feature, among any others, is stored.
func FromJSON() {
	panics("C32")
	m, k, v := jsonProps("props")
	gd := geo("dest")
	inputs()
	dest()
	if geodata.PropertiesToGeoData(&geojson.Feature{Properties: m}, gd) != nil {
		return
	}
	kind := gd.Properties[k].GetKind()
	switch x := v.(type) {
	case string:
		p, is := kind.(*spb.Value_StringValue)
		must("C32", "string:import", is && same(p.StringValue, x), "a string property is dropped or changed when stored")
	case float64:
		p, is := kind.(*spb.Value_NumberValue)
		must("C32", "number:import", is && same(p.NumberValue, x), "a number property is dropped or changed when stored")
	case int:
		p, is := kind.(*spb.Value_NumberValue)
		must("C32", "integer:import", is && same(p.NumberValue, float64(x)), "an integer property is dropped or changed when stored")
	case bool:
		p, is := kind.(*spb.Value_BoolValue)
		must("C32", "bool:import", is && same(p.BoolValue, x), "a boolean property is dropped or changed when stored")
	case nil:
	default:
		must("C32", "refused:import", false, "a property of an unsupported type is not refused")
	}
}

// Others: the properties a geometry has already are kept.
func Others() {
	panics("C32")
	m, _, _ := jsonProps("props")
	gd := geo("dest")
	q := otherKey()
	old, had := gd.Properties[q]
	inputs()
	dest()
	if geodata.PropertiesToGeoData(&geojson.Feature{Properties: m}, gd) == nil {
		v, has := gd.Properties[q]
		must("C32", "kept:import", has == had && (!had || v == old), "a property that is there already is dropped or changed by an import")
	}
}

func importOf(kind string, first bool, typ geodata.Geometry_Type) {
	panics("C30")
	g := flatGeom(kind, first)
	gd := geo("dest")
	inputs()
	dest()
	if geodata.GeomToGeoData(g, gd) == nil {
		op := kind + ":import"
		valid(op, gd.Geometry)
		must("C31", op, gd.Geometry.Type == typ, "a geometry is stored as one of another kind")
		isStored(op, gd.Geometry.Coordinates)
	}
}

func ImportPoint()       { importOf("point", true, geodata.Geometry_POINT) }
func ImportLine()        { importOf("line", true, geodata.Geometry_LINESTRING) }
func ImportLineLast()    { importOf("line", false, geodata.Geometry_LINESTRING) }
func ImportPolygon()     { importOf("polygon", true, geodata.Geometry_POLYGON) }
func ImportPolygonLast() { importOf("polygon", false, geodata.Geometry_POLYGON) }

// ImportOther: a geometry of a kind that cannot be stored, or none.
func ImportOther() {
	panics("C30")
	gd := geo("dest")
	inputs()
	dest()
	must("C30", "missing:import", geodata.GeomToGeoData(nil, gd) != nil, "a missing geometry is accepted")
}

func importMany(kind string) {
	panics("C30")
	g := flatGeom(kind, true)
	gd := geo("dest")
	inputs()
	dest()
	err := geodata.GeomToGeoData(g, gd)
	must("C31", kind+":import", err != nil, "a geometry of a kind that cannot be stored is accepted as one of another kind")
}

func ImportPoints() { importMany("multipoint") }
func ImportLines()  { importMany("multiline") }

// ImportPolygons: a multipolygon may only be stored as one.
func ImportPolygons() {
	panics("C30")
	g := flatGeom("multipolygon", true)
	gd := geo("dest")
	inputs()
	dest()
	err := geodata.GeomToGeoData(g, gd)
	must("C31", "multipolygon:import", err != nil || gd.Geometry.Type == geodata.Geometry_MULTIPOLYGON, "a multipolygon is stored as a geometry of another kind")
}

// Feature: the geometry and the properties of a feature are stored.
func Feature() {
	panics("C30")
	g := flatGeom("line", true)
	gd := geo("dest")
	inputs()
	dest()
	if geodata.GeoJSONFeatureToGeoData(&geojson.Feature{Geometry: g}, gd) == nil {
		valid("feature", gd.Geometry)
		must("C31", "feature", gd.Geometry.Type == geodata.Geometry_LINESTRING, "the geometry of a feature is stored as one of another kind")
		isStored("feature", gd.Geometry.Coordinates)
	}
}

func FeatureProps() {
	panics("C30")
	m, k, v := jsonProps("props")
	gd := geo("dest")
	inputs()
	dest()
	err := geodata.GeoJSONFeatureToGeoData(&geojson.Feature{Geometry: geom.NewPointFlat(geom.XY, []float64{0, 0}), Properties: m}, gd)
	if err == nil {
		if x, ok := v.(string); ok {
			p, is := gd.Properties[k].GetKind().(*spb.Value_StringValue)
			must("C32", "string:feature", is && same(p.StringValue, x), "a property of a feature is dropped or changed when stored")
		}
		must("C31", "featureprops", gd.Geometry != nil && gd.Geometry.Type == geodata.Geometry_POINT, "the geometry of a feature is not stored")
	}
}

func FeatureNone() {
	panics("C30")
	gd := geo("dest")
	inputs()
	dest()
	must("C30", "missing:feature", geodata.GeoJSONFeatureToGeoData(&geojson.Feature{}, gd) != nil, "a feature without geometry is accepted")
}

func Loop() {
	panics("C30")
	c := floats("coordinates")
	inputs()
	l := geodata.LoopFromCoordinates(c)
	if l != nil {
		must("C30", "loop", len(c) >= 6 && len(c)%2 == 0, "a loop is made of less than three positions or an odd number of coordinates")
		isLoop("loop", c, l)
	}
}

func LoopCCW() {
	panics("C30")
	c := floats("coordinates")
	inputs()
	l := geodata.LoopFromCoordinatesAndCCW(c, true)
	if l != nil {
		must("C30", "ccw", len(c) >= 6 && len(c)%2 == 0, "a loop is made of less than three positions or an odd number of coordinates")
		isLoop("ccw", c, l)
	}
}

func polyline(first bool) {
	panics("C30")
	gs, g := geos(first)
	inputs()
	summariseProps()
	data, err := geodata.PointsToGeoJSONPolyLines(gs)
	if err == nil {
		valid("polyline", g.Geometry)
		must("C31", "polyline", g.Geometry.Type == geodata.Geometry_POINT, "a geometry that is no point becomes part of a line")
		isPolyline("polyline", gs, g, g.Geometry.Coordinates, gs[0].Properties, data)
	}
}

func Polyline()     { polyline(true) }
func PolylineLast() { polyline(false) }

// PolylineNone: there may be no point at all.
func PolylineNone() {
	panics("C30")
	geodata.PointsToGeoJSONPolyLines(nil)
	geodata.ToGeoJSONFeatureCollection(nil)
}
