package client

import (
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

func kvstore() store.KVStore
func level() int
func float(name string) float64
func when(name string) time.Time
func cell(name string) s2.CellID
func cells(name string) []s2.CellID
func geo(name string) *geodata.GeoData

// an index of a kind over an unknown prefix
func index_(kind string, prefix []byte, level int)

func summarise()
func inputs()
func asked(c s2.CellID)
func askedList(cs []s2.CellID)
func askedArea(kind string, a, b, c, d float64)
func window(from, to time.Time)
func writes(id []byte)
func writesAt(id []byte, t time.Time)
func pointAt(lat, lng float64)
func endWrite(err error)
func endKey(k, id []byte, err error)
func endQuery(ids []index.GeoID, err error)
func must(prop, kind string, ok bool, msg string)
func refused(prop, what string, err error, msg string)

func flat() *index.S2FlatIdx {
	panics("C01")
	p, l := buf("prefix"), level()
	index_("flat", p, l)
	inputs()
	return index.NewS2FlatIdx(kvstore(), p, l)
}

func point() *index.S2PointIdx {
	panics("C01")
	p := buf("prefix")
	index_("point", p, 30)
	inputs()
	return index.NewS2PointIdx(kvstore(), p)
}

func timed() *index.S2FlatTimeIdx {
	panics("C01")
	p, l := buf("prefix"), level()
	index_("time", p, l)
	inputs()
	return index.NewS2FlatTimeIdx(kvstore(), p, l)
}

func FlatIndex() {
	x := flat()
	summarise()
	id := buf("id")
	writes(id)
	endWrite(x.GeoIndex(geo("geo"), id))
}

func TimeIndex() {
	x := timed()
	summarise()
	id, t := buf("id"), when("time")
	writesAt(id, t)
	endWrite(x.GeoTimeIndex(geo("geo"), t, id))
}

func PointIndex() {
	x := point()
	id := buf("id")
	lat, lng := float("lat"), float("lng")
	writes(id)
	pointAt(lat, lng)
	k, err := x.PointIndex(lat, lng, id)
	endKey(k, id, err)
	endWrite(err)
}

func PointKey() {
	x := point()
	id := nbuf("id")
	lat, lng := float("lat"), float("lng")
	writes(id)
	pointAt(lat, lng)
	endKey(x.PointKey(lat, lng, id), id, nil)
}

// geoPoint: the key of a stored point.
func geoPoint(op string, stores bool, f func(x *index.S2PointIdx, gd *geodata.GeoData, id index.GeoID) ([]byte, error)) {
	x := point()
	id := buf("id")
	gd := geo("geo")
	g := gd.Geometry
	var lat, lng float64
	ok := g != nil && len(g.Coordinates) == 2
	if ok {
		lat, lng = g.Coordinates[1], g.Coordinates[0]
	}
	writes(id)
	pointAt(lat, lng)
	k, err := f(x, gd, id)
	if err == nil {
		must("C30", "coordinates:"+op, ok, "a geometry without one longitude and one latitude is accepted as a point")
		must("C31", "kind:"+op, !ok || g.Type == geodata.Geometry_POINT, "a geometry that is no point is indexed as a point")
	}
	if ok {
		endKey(k, id, err)
		if stores {
			endWrite(err)
		} else if err == nil {
			must("C30", "id:"+op, len(id) > 0, "a key with an empty ID is made")
		}
	}
}

func GeoPointIndex() {
	geoPoint("GeoPointIndex", true, (*index.S2PointIdx).GeoPointIndex)
}
func GeoPointKey() {
	geoPoint("GeoPointKey", false, (*index.S2PointIdx).GeoPointKey)
}

func FlatCell() {
	x := flat()
	c := cell("cell")
	asked(c)
	endQuery(x.GeoIdsAtCell(c))
}

func PointCell() {
	x := point()
	c := cell("cell")
	asked(c)
	endQuery(x.GeoIdsAtCell(c))
}

func TimeCell() {
	x := timed()
	c := cell("cell")
	asked(c)
	from, to := when("from"), when("to")
	window(from, to)
	endQuery(x.GeoTimeIdsAtCell(c, from, to))
}

func FlatCells() {
	x := flat()
	cs := cells("cells")
	askedList(cs)
	endQuery(x.GeoIdsAtCells(cs))
}

func PointCells() {
	x := point()
	cs := cells("cells")
	askedList(cs)
	endQuery(x.GeoIdsAtCells(cs))
}

func TimeCells() {
	x := timed()
	cs := cells("cells")
	askedList(cs)
	from, to := when("from"), when("to")
	window(from, to)
	endQuery(x.GeoTimeIdsAtCells(cs, from, to))
}

func FlatRadius() {
	x := flat()
	lat, lng, r := float("lat"), float("lng"), float("radius")
	askedArea("cap", lat, lng, r, 0)
	endQuery(x.GeoIdsRadiusQuery(lat, lng, r))
}

func PointRadius() {
	x := point()
	lat, lng, r := float("lat"), float("lng"), float("radius")
	askedArea("cap", lat, lng, r, 0)
	endQuery(x.GeoIdsRadiusQuery(lat, lng, r))
}

func PointRect() {
	x := point()
	lat1, lng1, lat2, lng2 := float("latUR"), float("lngUR"), float("latBL"), float("lngBL")
	askedArea("rect", lat1, lng1, lat2, lng2)
	endQuery(x.GeoIdsRectQuery(lat1, lng1, lat2, lng2))
}

func TimeRadius() {
	x := timed()
	lat, lng, r := float("lat"), float("lng"), float("radius")
	askedArea("cap", lat, lng, r, 0)
	from, to := when("from"), when("to")
	window(from, to)
	endQuery(x.GeoTimeIdsRadiusQuery(from, to, lat, lng, r))
}

func TimeRect() {
	x := timed()
	lat1, lng1, lat2, lng2 := float("latUR"), float("lngUR"), float("latBL"), float("lngBL")
	askedArea("rect", lat1, lng1, lat2, lng2)
	from, to := when("from"), when("to")
	window(from, to)
	endQuery(x.GeoTimeIdsRectQuery(from, to, lat1, lng1, lat2, lng2))
}
