HEAD = '''
package index_test

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

var _ = bytes.Equal
var _ = errors.New
var _ = fmt.Sprint
var _ = math.MaxInt64
var _ = sort.Strings
var _ = time.Now
var _ geodata.GeoData
var _ s2.CellID

// watched counts the open handles of a store and fails on demand.
type watched struct {
	store.KVStore
	open             int
	closeErr, tamper bool
}

type wReader struct {
	store.KVReader
	w *watched
}

type wIter struct {
	store.KVIterator
	w *watched
}

type wWriter struct {
	store.KVWriter
	w *watched
}

func (w *watched) Reader() (store.KVReader, error) {
	r, err := w.KVStore.Reader()
	w.open++
	return &wReader{r, w}, err
}

func (w *watched) Writer() (store.KVWriter, error) {
	r, err := w.KVStore.Writer()
	w.open++
	return &wWriter{r, w}, err
}

func (r *wReader) Close() error { r.w.open--; return r.KVReader.Close() }
func (r *wWriter) Close() error { r.w.open--; return r.KVWriter.Close() }
func (r *wReader) PrefixIterator(p []byte) store.KVIterator {
	r.w.open++
	return &wIter{r.KVReader.PrefixIterator(p), r.w}
}
func (r *wReader) RangeIterator(a, b []byte) store.KVIterator {
	r.w.open++
	return &wIter{r.KVReader.RangeIterator(a, b), r.w}
}
func (i *wIter) Close() error {
	i.w.open--
	err := i.KVIterator.Close()
	if i.w.closeErr {
		return errors.New("scan failed")
	}
	return err
}

func open(t *testing.T) *watched {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	return &watched{KVStore: s}
}

func keys(t *testing.T, s store.KVStore) [][]byte {
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	it := r.PrefixIterator(nil)
	defer it.Close()
	var res [][]byte
	for ; it.Valid(); it.Next() {
		res = append(res, append([]byte{}, it.Key()...))
	}
	return res
}

func has(ids []index.GeoID, id string) int {
	n := 0
	for _, i := range ids {
		if string(i) == id {
			n++
		}
	}
	return n
}

func point(lat, lng float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
}

func polygon(c ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: c}}
}

func line(c ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: c}}
}

func put(t *testing.T, s store.KVStore, k []byte) {
	w, err := s.Writer()
	if err != nil {
		t.Fatal(err)
	}
	b := w.NewBatch()
	b.Set(k, nil)
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	w.Close()
}
'''

def ix(body):
    return HEAD + body

CELLS = '''	m := make(map[string]struct{})

	for _, c := range cells {
		ids, err := idx.GeoIdsAtCell(c)
		if err != nil {
			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
		}
		for _, id := range ids {
			m[string(id)] = struct{}{}
		}
	}

	res := make([]GeoID, len(m))
	var i int
	for k := range m {
		res[i] = []byte(k)
		i++
	}
'''

SEEDS = [
 dict(id="c01-undecodable-key", property="C01", pkg="index",
  needs="a stored key under the index's prefix that is too short to hold a cell and an ID, met by a rectangle query",
  breaks="the rectangle query returns the decoding error but keeps the store's iterator (and, with engines that count, the reader) open",
  edits=[("index/s2pointidx.go", '''			//TODO: find a CointainsPoint interface to factorize code with radius
			if rect.ContainsPoint(c.Point()) {''', '''			//TODO: find a CointainsPoint interface to factorize code with radius
			if !c.IsValid() {
				return res, errors.New("invalid cell in db")
			}
			if p := c.Point(); rect.ContainsPoint(p) {''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2PointIdx(s, []byte("P"))
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20))
	k, err := idx.PointIndex(10, 20, []byte("a"))
	if err != nil {
		t.Fatal(err)
	}
	// a foreign key inside the range of the scanned cells that isn't a cell
	k[8] &^= 1
	if s2.CellID(uint64(c)&^1).IsValid() {
		k[8] |= 2
		k[8] &^= 1
	}
	put(t, s, k)
	idx.GeoIdsRectQuery(11, 21, 9, 19)
	if s.open != 0 {
		t.Fatal(s.open, "handles left open")
	}
}
''')),
 dict(id="c02-failed-scan", property="C02", pkg="index",
  needs="a store whose iterator reports an error when it is closed, after some entries have been returned, on a query of several cells",
  breaks="the entries found before the scan failed are returned as a complete, successful answer",
  edits=[("index/s2idx.go", '''		if err != nil {
			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
		}''', '''		if err != nil && len(ids) == 0 {
			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
		}''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatIdx(s, []byte("P"), 12)
	if err := idx.GeoIndex(point(10, 20), []byte("a")); err != nil {
		t.Fatal(err)
	}
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	s.closeErr = true
	if ids, err := idx.GeoIdsAtCells([]s2.CellID{c}); err == nil {
		t.Fatal("success after a failed scan", ids)
	}
}
''')),
 dict(id="c03-key-aliases-prefix", property="C03", pkg="index",
  needs="an index whose prefix slice has spare capacity, and two index writes",
  breaks="the key returned by an index write is built in the spare room of the index's prefix, so the next write overwrites it",
  edits=[("index/s2pointidx.go", '''	// a key prefix+cellid+id -> no values
	k := make([]byte, len(idx.prefix))
	copy(k, idx.prefix)

	// avoid''', '''	// a key prefix+cellid+id -> no values
	k := idx.prefix[:len(idx.prefix)]

	// avoid''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	p := make([]byte, 1, 64)
	p[0] = 'P'
	idx := index.NewS2PointIdx(s, p)
	k, err := idx.PointIndex(10, 20, []byte("a"))
	if err != nil {
		t.Fatal(err)
	}
	was := string(k)
	if _, err := idx.PointIndex(-10, -20, []byte("b")); err != nil {
		t.Fatal(err)
	}
	if string(k) != was {
		t.Fatal("the key changed")
	}
}
''')),
 dict(id="c22-trimmed-id", property="C22", pkg="index",
  needs="an ID that ends in a space or a newline",
  breaks="the ID decoded from a key lacks its trailing white space: it isn't the ID that was written",
  edits=[("index/s2timeidx.go", "	id = k[len(idx.prefix)+8+8:]\n", "	id = bytes.TrimRight(k[len(idx.prefix)+8+8:], \" \\n\")\n")],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatTimeIdx(s, []byte("P"), 12)
	if err := idx.GeoTimeIndex(point(10, 20), time.Unix(100, 0), []byte("a ")); err != nil {
		t.Fatal(err)
	}
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	ids, err := idx.GeoTimeIdsAtCell(c, time.Unix(200, 0), time.Unix(1, 0))
	if err != nil || has(ids, "a ") != 1 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c22-varint-time", property="C22", pkg="index",
  needs="two times whose reversed encodings differ in the sign of the offset from the middle of the range",
  breaks="times before 1970 are stored as if they were 1970, so the key doesn't hold the time that was indexed",
  edits=[("index/s2timeidx.go", "	ts := int64tob(math.MaxInt64 - t.UnixNano())\n", '''	nano := t.UnixNano()
	if nano < 0 {
		// reversed timestamps can't represent a time before MinGeoTime
		nano = 0
	}
	ts := int64tob(math.MaxInt64 - nano)
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatTimeIdx(s, []byte("P"), 12)
	if err := idx.GeoTimeIndex(point(10, 20), time.Unix(-100, 0), []byte("a")); err != nil {
		t.Fatal(err)
	}
	if err := idx.GeoTimeIndex(point(10, 20), time.Unix(-200, 0), []byte("a")); err != nil {
		t.Fatal(err)
	}
	if n := len(keys(t, s)); n != 2 {
		t.Fatal("two times, keys:", n)
	}
}
''')),
 dict(id="c23-first-leaf", property="C23", pkg="index",
  needs="a point at the very first leaf position of the queried cell",
  breaks="the scan of a cell starts after its first leaf, so a point stored there is never found",
  edits=[("index/s2pointidx.go", '''	copy(start, idx.prefix)
	start = append(start, itob(uint64(c.RangeMin()))...)
''', '''	copy(start, idx.prefix)
	start = append(start, itob(uint64(c)-(uint64(c)&-uint64(c))+2)...)
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2PointIdx(s, []byte("P"))
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	ll := c.RangeMin().LatLng()
	if _, err := idx.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), []byte("a")); err != nil {
		t.Fatal(err)
	}
	ids, err := idx.GeoIdsAtCell(c)
	if err != nil || has(ids, "a") != 1 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c24-coarser-cover", property="C24", pkg="index",
  needs="a radius query so large that its cover reaches a coarser cell",
  breaks="the cells of a radius query may be one level coarser than the index, where nothing is stored",
  edits=[("index/s2idx.go", '''	cap := s2.CapFromCenterArea(center, s2RadialAreaMeters(radius))
	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}''', '''	var area = s2RadialAreaMeters(radius)
	cap := s2.CapFromCenterArea(center, area)
	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
	if r := radius / 2; r > 100000 && idx.level > 4 {
		coverer = &s2.RegionCoverer{MinLevel: idx.level - 1, MaxLevel: idx.level, MaxCells: 64}
	}''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatIdx(s, []byte("P"), 8)
	if err := idx.GeoIndex(point(10, 20), []byte("a")); err != nil {
		t.Fatal(err)
	}
	ids, err := idx.GeoIdsRadiusQuery(10, 20, 1000000)
	if err != nil || has(ids, "a") != 1 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c25-stop-outside", property="C25", pkg="index",
  needs="a scanned cell in which a stored point outside the rectangle comes before one inside",
  breaks="the scan of a cell stops at the first point outside the rectangle, so later points inside it are dropped",
  edits=[("index/s2pointidx.go", '''			if rect.ContainsPoint(c.Point()) {
				res = append(res, id)
			}
''', '''			if !rect.ContainsPoint(c.Point()) && coverCell.Level() > 4 {
				// we left the rectangle
				break
			}
			res = append(res, id)
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2PointIdx(s, []byte("P"))
	n := 0
	for i := 0; i < 40; i++ {
		for j := 0; j < 40; j++ {
			lat, lng := 9+float64(i)*0.05, 19+float64(j)*0.05
			if lat > 9.51 && lat < 10.49 && lng > 19.51 && lng < 20.49 {
				n++
			}
			if _, err := idx.PointIndex(lat, lng, []byte(fmt.Sprint(i, "/", j))); err != nil {
				t.Fatal(err)
			}
		}
	}
	ids, err := idx.GeoIdsRectQuery(10.49, 20.49, 9.51, 19.51)
	if err != nil || len(ids) != n {
		t.Fatal(len(ids), n, err)
	}
}
''')),
 dict(id="c26-empty-cell-ends", property="C26", pkg="index",
  needs="a query over several cells in which an empty cell comes before one that holds an ID",
  breaks="the cells after the first empty one are never consulted",
  edits=[("index/s2pointidx.go", '''		for _, id := range ids {
			m[string(id)] = struct{}{}
		}
''', '''		if len(ids) == 0 && len(m) > 0 {
			break
		}
		for i := range ids {
			m[string(ids[i])] = struct{}{}
		}
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2PointIdx(s, []byte("P"))
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20))
	for i, x := range []s2.CellID{c, c.Next().Next()} {
		ll := x.LatLng()
		if _, err := idx.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), []byte{byte('a' + i)}); err != nil {
			t.Fatal(err)
		}
	}
	ids, err := idx.GeoIdsAtCells([]s2.CellID{c, c.Next(), c.Next().Next()})
	if err != nil || has(ids, "a") != 1 || has(ids, "b") != 1 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c26-repeated-id", property="C26", pkg="index",
  needs="an ID found in two queried cells, with another ID found in between",
  breaks="only neighbouring duplicates are dropped, so an ID stored in several cells can be returned several times",
  edits=[("index/s2idx.go", CELLS, '''	res := make([]GeoID, 0, len(cells))

	for _, c := range cells {
		ids, err := idx.GeoIdsAtCell(c)
		if err != nil {
			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
		}
		for _, id := range ids {
			if n := len(res); n > 0 && bytes.Equal(res[n-1], id) {
				continue
			}
			res = append(res, id)
		}
	}
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatIdx(s, []byte("P"), 10)
	g := polygon(19, 9, 21, 9, 21, 11, 19, 11, 19, 9)
	for _, id := range []string{"a", "b"} {
		if err := idx.GeoIndex(g, []byte(id)); err != nil {
			t.Fatal(err)
		}
	}
	cu, err := idx.Covering(g)
	if err != nil {
		t.Fatal(err)
	}
	ids, err := idx.GeoIdsAtCells(cu)
	if err != nil || has(ids, "a") != 1 || has(ids, "b") != 1 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c27-whole-seconds", property="C27", pkg="index",
  needs="two entries less than a second apart, and a window bound between them",
  breaks="the time in a key is cut to whole seconds, so a window takes in entries outside its ends",
  edits=[("index/s2timeidx.go", "	ts := int64tob(math.MaxInt64 - t.UnixNano())\n", "	ts := int64tob(math.MaxInt64 - t.UnixNano()/int64(time.Second)*int64(time.Second))\n")],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatTimeIdx(s, []byte("P"), 12)
	if err := idx.GeoTimeIndex(point(10, 20), time.Unix(100, 900), []byte("a")); err != nil {
		t.Fatal(err)
	}
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	ids, err := idx.GeoTimeIdsAtCell(c, time.Unix(100, 500), time.Unix(1, 0))
	if err != nil || has(ids, "a") != 0 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c27-far-future", property="C27", pkg="index",
  needs="a time window that starts at or after the latest time the index supports",
  breaks="a query from MaxGeoTime starts at the beginning of the prefix and so returns entries of other cells",
  edits=[("index/s2timeidx.go", "	startKey := idx.timePrefixKey(c, from)\n", '''	var startKey []byte
	if !from.Before(MaxGeoTime) {
		// from the very first entry
		startKey = append([]byte(nil), idx.prefix...)
	} else {
		startKey = idx.timePrefixKey(c, from)
	}
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatTimeIdx(s, []byte("P"), 12)
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	ll := c.Prev().LatLng()
	if err := idx.GeoTimeIndex(point(ll.Lat.Degrees(), ll.Lng.Degrees()), time.Unix(100, 0), []byte("a")); err != nil {
		t.Fatal(err)
	}
	ids, err := idx.GeoTimeIdsAtCell(c, index.MaxGeoTime, index.MinGeoTime)
	if err != nil || len(ids) != 0 {
		t.Fatal(ids, err)
	}
}
''')),
 dict(id="c28-point-key-swapped", property="C28", pkg="index",
  needs="the key of a point geometry whose latitude and longitude differ",
  breaks="the key of a point geometry is computed with its longitude as latitude, unlike the key it is indexed under",
  edits=[("index/s2pointidx.go", "	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil", '''	ll := gd.Geometry.Coordinates
	return idx.PointKey(ll[0], ll[1], id), nil''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2PointIdx(s, []byte("P"))
	k, err := idx.GeoPointKey(point(10, 20), []byte("a"))
	if err != nil || !bytes.Equal(k, idx.PointKey(10, 20, []byte("a"))) {
		t.Fatal(k, err)
	}
}
''')),
 dict(id="c29-scan-key-in-prefix", property="C29", pkg="index",
  needs="a prefix slice with spare capacity that the caller uses for something else",
  breaks="a query writes the cell behind the index's prefix, into memory that belongs to the caller",
  edits=[("index/s2idx.go", '''	// add the prefix to the queried key
	k := make([]byte, len(idx.prefix))
	copy(k, idx.prefix)
	k = append(k, itob(uint64(c))...)
''', '''	// add the prefix to the queried key
	k := append(idx.prefix, itob(uint64(c))...)
''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	buf := []byte("PREFIX and what the caller keeps behind it")
	was := string(buf)
	idx := index.NewS2FlatIdx(s, buf[:6], 12)
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(10, 20)).Parent(12)
	if _, err := idx.GeoIdsAtCell(c); err != nil {
		t.Fatal(err)
	}
	if string(buf) != was {
		t.Fatal("written: ", string(buf))
	}
}
''')),
 dict(id="c29-reversed-line", property="C29", pkg="index",
  needs="a line whose first longitude is greater than its last",
  breaks="covering a line that runs westwards reverses the coordinates of the caller's geometry",
  edits=[("index/geodata/tools.go", '''		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
		for i := 0; i < len(gd.Geometry.Coordinates); i += 2 {
			ll := s2.LatLngFromDegrees(gd.Geometry.Coordinates[i+1], gd.Geometry.Coordinates[i])
			pl[i/2] = s2.PointFromLatLng(ll)
		}

		var cupl''', '''		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
		lc := gd.Geometry.Coordinates
		if lc[0] > lc[len(lc)-2] {
			// always from west to east
			for i, j := 0, len(lc)-2; i < j; i, j = i+2, j-2 {
				lc[i], lc[i+1], lc[j], lc[j+1] = lc[j], lc[j+1], lc[i], lc[i+1]
			}
		}
		for i := 0; i < len(lc); i += 2 {
			ll := s2.LatLngFromDegrees(lc[i+1], lc[i])
			pl[i/2] = s2.PointFromLatLng(ll)
		}

		var cupl''')],
  test=ix('''
func TestDemo(t *testing.T) {
	s := open(t)
	idx := index.NewS2FlatIdx(s, []byte("P"), 12)
	g := line(21, 9, 20.9, 9.1, 20.8, 9)
	if err := idx.GeoIndex(g, []byte("a")); err != nil {
		t.Fatal(err)
	}
	if g.Geometry.Coordinates[0] != 21 || g.Geometry.Coordinates[4] != 20.8 {
		t.Fatal(g.Geometry.Coordinates)
	}
}
''')),
 dict(id="c30-empty-cover", property="C30", pkg="index",
  needs="a geometry whose cover has no cell, and an index at level 0",
  breaks="a geometry without cover is accepted by an index at level 0 although nothing is stored for it",
  edits=[("index/s2idx.go", "	if len(cu) == 0 {\n", "	if cu == nil && idx.level > 0 {\n")],
  test='SKIP'),
]
SEEDS = [s for s in SEEDS if s["test"] != 'SKIP']
