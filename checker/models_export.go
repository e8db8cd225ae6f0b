package main

// Exports of lists of cells: one entry for each cell, in order.

func (e *Engine) exportModels() {
	// entries checks the number of entries and gives that of the watched cell
	entries := func(c *Call, op string, l, out *V) *V {
		s := c.s
		es, cells := s.items(out), s.items(l)
		d := e.dbg("%v of %v", StrV(es), StrV(cells))
		n := segsLen(cells)
		e.require("C35", "count:"+op, s.eq(segsLen(es), n), "not every cell has one entry"+d, s, c.pos())
		pos := Int(0)
		for _, g := range cells {
			if s.watchedSeg(g) {
				break
			}
			pos = Add(pos, g.A[0])
		}
		at, in := Int(0), Int(0)
		var entry *V
		for _, g := range es {
			if s.watchedSeg(g) && g.S == "el" {
				in, entry = at, g.A[1]
				break
			}
			at = Add(at, g.A[0])
		}
		e.require("C35", "entry:"+op, entry != nil, "a cell has no entry"+d, s, c.pos())
		if entry == nil {
			return nil
		}
		e.require("C35", "order:"+op, s.eq(in, pos), "the entry of a cell is not in its place"+d, s, c.pos())
		return entry
	}
	// about: a value says something of the watched cell, if anything
	about := func(s *State, v, want *V) bool {
		if v.Op == OIface {
			v = v.A[0]
		}
		if v.Op == OStr {
			x := wholeContent(v)
			if x == nil {
				return false
			}
			v = x
		}
		return s.rw(v) == want || intish(want) && s.eq(v, want)
	}
	// text and the corners of a cell can always be encoded
	e.model("client.encodable", func(c *Call) { c.s.ghost["encodable"] = vTrue; c.ret(c.s) })
	e.model("client.areTokens", func(c *Call) {
		s := c.s
		op, _ := strConst(c.str(0))
		c.ret(s)
		w := c.args[2]
		if x := entries(c, op, c.args[1], c.args[3]); x != nil {
			e.require("C35", "token:"+op, about(s, x, App("token", w)), "the entry of a cell is not its token"+e.dbg("%v", x), s, c.pos())
		}
	})
	e.model("client.areFeatures", func(c *Call) {
		s := c.s
		op, _ := strConst(c.str(0))
		c.ret(s)
		w := c.args[2]
		v, x := s.ghost["marshalled"], s.ghost["json"]
		ok := v != nil && wholeContent(s.content(c.args[3])) == x
		if ok {
			v = s.expand(v, e.extType(geomPkg+"/encoding/geojson", "FeatureCollection"))
			ok = len(v.A) == 2 && v.A[1].Op == OSlice
		}
		e.require("C35", "encoded:"+op, ok, "the result is not the encoding of a feature collection", s, c.pos())
		if !ok {
			return
		}
		f := entries(c, op, c.args[1], v.A[1])
		if f == nil || f.Op != OPtr || s.heap[f.Obj] == nil || s.heap[f.Obj].Val == nil {
			return
		}
		fv := s.expand(s.heap[f.Obj].Val, e.extType(geomPkg+"/encoding/geojson", "Feature"))
		want := map[string]*V{
			"id":    App("token", w),
			"uid":   App("decimal", w, Int(10)),
			"str":   App("cellstring", w),
			"level": s.level(w),
		}
		if m := fv.A[3]; m.Op == ORef && s.heap[m.Obj] != nil {
			got := map[string]*V{}
			for _, g := range s.heap[m.Obj].Segs {
				if g.S != "el" {
					panic("the properties of a cell's feature are not modelled")
				}
				if k, ok := strConst(g.A[1].A[0]); ok {
					got[k] = g.A[1].A[1]
				}
			}
			for k, x := range want {
				e.require("C35", k+":"+op, got[k] != nil && about(s, got[k], x), "the "+k+" of a feature is not that of its cell"+e.dbg("%v not %v", got[k], x), s, c.pos())
			}
		} else {
			e.require("C35", "id:"+op, false, "a feature does not say which cell it is", s, c.pos())
		}
		e.isOutline(c, op, fv.A[2], w)
	})
}

// isOutline: a geometry is the polygon of the four corners of a cell.
func (e *Engine) isOutline(c *Call, op string, p, w *V) {
	s := c.s
	var g *V
	if p.Op == OIface && typeKey(p.T) == "*"+geomPkg+".Polygon" && p.A[0].Op == OPtr {
		g = s.attr(p.A[0].Obj, "geom")
	}
	ok := g != nil && g.A[0].S == "polygon"
	e.require("C35", "polygon:"+op, ok, "the feature of a cell is not a polygon"+e.dbg("%v", p), s, c.pos())
	if !ok {
		return
	}
	d := e.dbg("polygon %v", g)
	e.require("C35", "layout:"+op, s.eq(g.A[1], Int(1)), "the positions of a polygon have another number of dimensions"+d, s, c.pos())
	var xs []*V
	for _, x := range s.items(g.A[2]) {
		if x.S != "el" {
			panic("the coordinates of a cell's outline are not modelled")
		}
		xs = append(xs, s.rw(x.A[1]))
	}
	// which corner each position is
	var at []int64
	lngFirst := len(xs)%2 == 0
	for i := 0; i+1 < len(xs) && lngFirst; i += 2 {
		n, ok := cornerOf(xs[i], "lngof", w)
		m, ok2 := cornerOf(xs[i+1], "latof", w)
		lngFirst = ok && ok2 && n == m
		at = append(at, n)
	}
	e.require("C28", "pair:"+op, lngFirst, "a position of a cell's outline is not the longitude and the latitude of one of its corners"+d, s, c.pos())
	if !lngFirst {
		return
	}
	ring := len(at) == 5 && at[0] == at[4]
	if ring {
		t := (at[1] - at[0] + 4) % 4
		ring = t == 1 || t == 3
		for i := 1; i < 5; i++ {
			ring = ring && (at[i]-at[i-1]+4)%4 == t
		}
	}
	e.require("C35", "corners:"+op, ring, "the outline of a cell does not go around its four corners"+d, s, c.pos())
	ends := s.items(g.A[3])
	e.require("C35", "ring:"+op, len(ends) == 1 && ends[0].S == "el" && s.eq(ends[0].A[1], Int(10)), "the outline of a cell is not one closed ring"+d, s, c.pos())
}

func cornerOf(x *V, f string, w *V) (int64, bool) {
	if x.Op != OApp || x.S != "degrees" {
		return 0, false
	}
	x = x.A[0]
	if x.Op != OApp || x.S != f {
		return 0, false
	}
	x = x.A[0]
	if x.Op != OApp || x.S != "vertex" || x.A[0] != w {
		return 0, false
	}
	return isInt(x.A[1])
}
