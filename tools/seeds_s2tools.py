HEAD = '''
package s2tools_test

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

var _ = json.Marshal
var _ = geom.XY
var _ geojson.Feature
var _ s2.CellID
var _ = strings.Count
var _ = s2tools.ParseCellID

// answers counts what a handler answers
type answers struct {
	*httptest.ResponseRecorder
	begun int
}

func (a *answers) WriteHeader(c int) { a.begun++; a.ResponseRecorder.WriteHeader(c) }

func post(t *testing.T, vars map[string]string, body string) *answers {
	r, err := http.NewRequest("POST", "/", strings.NewReader(body))
	if err != nil {
		t.Fatal(err)
	}
	a := &answers{ResponseRecorder: httptest.NewRecorder()}
	s2tools.GeoJSONToCellHandler(a, mux.SetURLVars(r, vars))
	return a
}

func vars(min, max, cells string) map[string]string {
	return map[string]string{"min_level": min, "max_level": max, "max_cells": cells}
}

const point = `{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[2.3,48.8]}}`
const square = `{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[0,0],[1,0],[1,1],[0,1],[0,0]]]}}`

func collection(f ...string) string {
	return `{"type":"FeatureCollection","features":[` + strings.Join(f, ",") + `]}`
}

func sees(t *testing.T, a *answers, code int) {
	if a.Code != code || a.begun > 1 {
		t.Fatal(a.Code, a.begun, a.Body.String())
	}
}

'''
H = 's2tools/handlers.go'
U = 's2tools/cellunion.go'
J = 's2tools/geojsoncells.go'
P = 's2tools/parse.go'
def ix(body): return HEAD + body
SEEDS = [
 dict(id='c33-missing-parameter', property='C33', pkg='s2tools',
  needs='a request routed without one of its parameters, or with an empty one',
  breaks='a parameter that is absent or empty is not reported: the request is answered with success',
  edits=[(H, '''			v, err := strconv.Atoi(vs)
			if err != nil {
				return res, err
			}
''', '''			v, err := strconv.Atoi(vs)
			if err != nil && len(vs) > 0 {
				return res, err
			}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	sees(t, post(t, vars("4", "10", "8"), collection(square)), 200)
	sees(t, post(t, vars("", "10", "8"), collection(square)), 400)
	sees(t, post(t, map[string]string{"min_level": "3", "max_level": "10"}, collection(square)), 400)
}
''')),
 dict(id='c33-other-features-ignored', property='C33', pkg='s2tools',
  needs='a body with several features',
  breaks='a body with more than one feature is answered with the cover of one of them',
  edits=[(H, '''	if len(fc.Features) != 1 {
		http.Error(w, "no or more than one feature", 400)
		return
	}
''', '''	if fc.Features == nil || len(fc.Features) == 0 {
		http.Error(w, "no or more than one feature", 400)
		return
	}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	sees(t, post(t, vars("4", "10", "8"), collection(square)), 200)
	sees(t, post(t, vars("4", "10", "8"), collection()), 400)
	sees(t, post(t, vars("4", "10", "8"), collection(square, square)), 400)
}
''')),
 dict(id='c33-two-answers', property='C33', pkg='s2tools',
  needs='a feature whose geometry cannot be stored',
  breaks='after the error about a feature the handler goes on and answers a second time',
  edits=[(H, '''	err = geodata.GeoJSONFeatureToGeoData(f, gd)
	if err != nil {
		http.Error(w, err.Error(), 400)
		return
	}
''', '''	if err = geodata.GeoJSONFeatureToGeoData(f, gd); err != nil {
		http.Error(w, err.Error(), 400)
		if gd.Properties == nil {
			return
		}
	}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	bad := `{"type":"Feature","properties":{"a":"b"},"geometry":{"type":"MultiPoint","coordinates":[[2.3,48.8]]}}`
	sees(t, post(t, vars("4", "10", "8"), collection(square)), 200)
	sees(t, post(t, vars("4", "10", "8"), collection(bad)), 400)
	a := post(t, vars("4", "10", "8"), collection(bad))
	if n := strings.Count(strings.TrimSpace(a.Body.String()), "\\n"); n != 0 {
		t.Fatal(a.Body.String())
	}
}
''')),
 dict(id='c33-coarse-cover-refused', property='C33', pkg='s2tools',
  needs='a request whose parameters are all zero',
  breaks='a well-formed request is answered with an error',
  edits=[(H, '''			if v < 0 {
				return res, errors.New("invalid parameter")
			}
''', '''			if v <= 0 && i < len(args)-1 {
				return res, errors.New("invalid parameter")
			}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	sees(t, post(t, vars("4", "10", "8"), collection(square)), 200)
	sees(t, post(t, vars("0", "10", "8"), collection(square)), 200)
}
''')),
 dict(id='c34-signed-ids', property='C34', pkg='s2tools',
  needs='a negative decimal number',
  breaks='a negative number, which denotes no cell, gives one',
  edits=[(P, '''	id, err := strconv.ParseUint(cs, 10, 64)''', '''	id, err := strconv.ParseInt(cs, 10, 64)
	if err != nil {
		var u uint64
		u, err = strconv.ParseUint(cs, 10, 64)
		id = int64(u)
	}''')],
  test=ix('''func TestDemo(t *testing.T) {
	for _, s := range []string{"-9223372036854775807", "9223372036854775809", "5180950467127017472"} {
		if c := s2tools.ParseCellID(s); (c != nil) == (s[0] == '-') {
			t.Fatal(s, c)
		}
	}
}
''')),
 dict(id='c34-fifth-child', property='C34', pkg='s2tools',
  needs='a path with a digit of 4',
  breaks='a path with a child that does not exist panics',
  edits=[(P, '''			if err != nil || child < 0 || child > 3 {
				return nil
			}

			c = c.Children()[child]
''', '''			kids := c.Children()
			if err != nil || child < 0 || child > len(kids) {
				return nil
			}

			c = kids[child]
''')],
  test=ix('''func TestDemo(t *testing.T) {
	for _, s := range []string{"2/4", "2/04", "2/5", "2/3"} {
		if c := s2tools.ParseCellID(s); c != nil && !c.IsValid() {
			t.Fatal(s)
		}
	}
}
''')),
 dict(id='c35-shared-corners', property='C35', pkg='s2tools',
  needs='a list of two cells or more',
  breaks='all entries of an export show the corners of the last cell',
  edits=[(J, '''	fc := geojson.FeatureCollection{}
	for _, cid := range cu {
''', '''	fc := geojson.FeatureCollection{}
	coords := make([]float64, 5*2)
	for _, cid := range cu {
'''), (J, '''		coords := make([]float64, 5*2)
''', '')],
  test=ix('''func TestDemo(t *testing.T) {
	cu := s2.CellUnion{s2.CellIDFromFace(1).ChildBeginAtLevel(4), s2.CellIDFromFace(3).ChildBeginAtLevel(4)}
	fc := &geojson.FeatureCollection{}
	if err := json.Unmarshal(s2tools.CellUnionToGeoJSON(cu), fc); err != nil {
		t.Fatal(err)
	}
	if len(fc.Features) != 2 {
		t.Fatal(len(fc.Features))
	}
	for i, f := range fc.Features {
		ll := s2.LatLngFromPoint(s2.CellFromCellID(cu[i]).Vertex(0))
		d := f.Geometry.FlatCoords()[0] - ll.Lng.Degrees()
		if d > 1e-9 || d < -1e-9 {
			t.Fatal(i, f.Geometry.FlatCoords())
		}
	}
}
''')),
 dict(id='c35-repeated-cells-missing', property='C35', pkg='s2tools',
  needs='a first list with the same cell twice, once in the second list',
  breaks='the difference drops all occurrences of a cell that occurs once in the second list',
  edits=[(U, '''	m := make(map[s2.CellID]int)

	for _, c := range to {
		m[c]++
	}
''', '''	m := make(map[s2.CellID]bool, len(to))

	for _, c := range to {
		m[c] = true
	}
'''), (U, '''		if m[c] > 0 {
			m[c]--
			continue
''', '''		if m[c] {
			continue
''')],
  test=ix('''func TestDemo(t *testing.T) {
	a, b := s2.CellIDFromFace(1), s2.CellIDFromFace(2)
	r := s2tools.CellUnionMissing(s2.CellUnion{a, b, a}, s2.CellUnion{a})
	if len(r) != 2 {
		t.Fatal(r)
	}
}
''')),
 dict(id='c35-signed-order', property='C35', pkg='s2tools',
  needs='cells of faces 3 and 4',
  breaks='the union puts the cells of the faces 4 and 5 before those of the others',
  edits=[(U, 'uint64(res[i]) < uint64(res[j])', 'int64(res[i]) - int64(res[j]) < 0'.replace('int64(res[i]) - int64(res[j]) < 0', 'int64(res[i]) < int64(res[j])'))],
  test=ix('''func TestDemo(t *testing.T) {
	a, b := s2.CellIDFromFace(3), s2.CellIDFromFace(5)
	r := s2tools.CellUnionUnion(s2.CellUnion{b}, s2.CellUnion{a})
	if len(r) != 2 || r[0] != a || r[1] != b {
		t.Fatal(r)
	}
}
''')),
 dict(id='c35-union-keeps-repeats', property='C35', pkg='s2tools',
  needs='a first list in which a cell is repeated',
  breaks='the union contains a cell of the first list as often as it occurs there',
  edits=[(U, '''	for _, c := range src {
		m[c] = struct{}{}
	}

	for _, cu := range others {
''', '''	res := append(s2.CellUnion(nil), src...)
	for _, c := range src {
		m[c] = struct{}{}
	}

	for _, cu := range others {
'''), (U, '''			m[c] = struct{}{}
		}
	}
	var res s2.CellUnion
	for k := range m {
		res = append(res, k)
	}
''', '''			if _, ok := m[c]; !ok {
				m[c] = struct{}{}
				res = append(res, c)
			}
		}
	}
''')],
  test=ix('''func TestDemo(t *testing.T) {
	a, b := s2.CellIDFromFace(3), s2.CellIDFromFace(5)
	r := s2tools.CellUnionUnion(s2.CellUnion{b, b}, s2.CellUnion{a, a})
	if len(r) != 2 || r[0] != a || r[1] != b {
		t.Fatal(r)
	}
}
''')),
 dict(id='c36-holes-joined', property='C36', pkg='s2tools',
  needs='a polygon of two dimensions with a hole',
  breaks='the positions of the holes are appended to the outer ring',
  edits=[('index/geodata/tools.go', '''	gd.Geometry = geo
	return nil
}

// flatXY''', '''	if p, ok := g.(*geom.Polygon); ok && p.Layout() == geom.XY {
		// two dimensions: the positions are used as they are
		gd.Geometry = &Geometry{Type: Geometry_POLYGON, Coordinates: p.FlatCoords()}
	} else {
		gd.Geometry = geo
	}
	return nil
}

// flatXY''')],
  test='''package s2tools_test

import (
	"testing"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/twpayne/go-geom"
)

func TestDemo(t *testing.T) {
	ring := []float64{0, 0, 9, 0, 9, 9, 0, 9, 0, 0}
	hole := []float64{1, 1, 1, 2, 2, 2, 2, 1, 1, 1}
	p := geom.NewPolygonFlat(geom.XY, append(append([]float64(nil), ring...), hole...), []int{10, 20})
	gd := &geodata.GeoData{}
	if err := geodata.GeomToGeoData(p, gd); err != nil {
		t.Fatal(err)
	}
	if len(gd.Geometry.Coordinates) != 10 {
		t.Fatal(gd.Geometry.Coordinates)
	}
}
'''),
]
