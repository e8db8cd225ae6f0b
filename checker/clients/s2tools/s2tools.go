package client

import (
	"net/http"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
)

func must(prop, what string, ok bool, msg string)
func watchCells()
func isCell(op string, c s2.CellID)

// ParseCell: any text gives a valid cell or none.
func ParseCell() {
	panics("C34")
	watchCells()
	c := s2tools.ParseCellID(str("text"))
	if c != nil {
		isCell("parse", *c)
	}
}

func theCell() s2.CellID

// Where the watched cell is in a list of other cells.
const (
	nowhere = iota
	first
	last
	twice // first and last
)

// inputs: from here on the memory of the client is not to be written.
func inputs()

func cellList(name string, at int) s2.CellUnion

// cellLists is a list of lists of other cells, and l.
func cellLists(name string, l s2.CellUnion, at int) []s2.CellUnion
func isSorted(op string, l s2.CellUnion)

// has: l holds c n times, and no cell that is neither c nor another cell of
// the lists.
func has(op string, l s2.CellUnion, c s2.CellID, n int)

func union(a, b, list int) {
	panics("C35")
	c := theCell()
	src := cellList("src", a)
	others := cellLists("others", cellList("other", b), list)
	n := 0
	if a != nowhere || b != nowhere {
		n = 1
	}
	inputs()
	res := s2tools.CellUnionUnion(src, others...)
	isSorted("union", res)
	has("union", res, c, n)
}

func UnionSrc()   { union(first, nowhere, first) }
func UnionLast()  { union(last, nowhere, first) }
func UnionOther() { union(nowhere, first, last) }
func UnionFirst() { union(nowhere, last, first) }
func UnionBoth()  { union(first, last, first) }
func UnionTwice() { union(twice, nowhere, first) }
func UnionNone()  { union(nowhere, nowhere, first) }

// difference: n is what is left of the watched cell.
func difference(a, b, n int) {
	panics("C35")
	c := theCell()
	from := cellList("from", a)
	to := cellList("to", b)
	inputs()
	has("missing", s2tools.CellUnionMissing(from, to), c, n)
}

func MissingKept()     { difference(first, nowhere, 1) }
func MissingKeptLast() { difference(last, nowhere, 1) }
func MissingCut()      { difference(first, last, 0) }
func MissingCutLast()  { difference(last, first, 0) }
func MissingNone()     { difference(nowhere, first, 0) }
func MissingOnce()     { difference(twice, first, 1) }
func MissingTwice()    { difference(first, twice, 0) }
func MissingAll()      { difference(twice, twice, 0) }

func encodable()
func areTokens(op string, l s2.CellUnion, c s2.CellID, tokens []string)
func areFeatures(op string, l s2.CellUnion, c s2.CellID, json []byte)

func tokens(at int) {
	panics("C35")
	c := theCell()
	l := cellList("cells", at)
	inputs()
	areTokens("tokens", l, c, s2tools.CellUnionToTokens(l))
}

func Tokens()     { tokens(first) }
func TokensLast() { tokens(last) }

func features(at int) {
	panics("C35")
	encodable()
	c := theCell()
	l := cellList("cells", at)
	inputs()
	areFeatures("geojson", l, c, s2tools.CellUnionToGeoJSON(l))
}

func Features()     { features(first) }
func FeaturesLast() { features(last) }

// ---- the debug handlers ----

func request() (http.ResponseWriter, *http.Request)

// tokenAt chooses the watched cell of the query.
func tokenAt(at int)
func answered(op string)

func query(at int) {
	panics("C33")
	w, r := request()
	tokenAt(at)
	s2tools.S2CellQueryHandler(w, r)
	answered("cells")
}

func Query()     { query(first) }
func QueryLast() { query(last) }

func CoverFeature() {
	panics("C33")
	w, r := request()
	s2tools.GeoJSONToCellHandler(w, r)
	answered("cover")
}
