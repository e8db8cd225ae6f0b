package main

import (
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

// The S2 library as terms: an angle is deg(x), a position pt(lat,lng), a leaf
// cell leaf(lat,lng); areas are cap(centre,size) and rect(corners), a cover is
// cover(kind,region,min,max,mod).

const s2Pkg = "github.com/golang/geo/s2"

func (c *Call) rv(x *V) *V { // as the value of the first result
	return c.s.reify(x, c.resType(0))
}

func angle(x *V) *V { return App("deg", x) }

// latlng gives the two angles of a s2.LatLng value.
func (s *State) latlng(v *V) (*V, *V) {
	if v.Op == OStruct && len(v.A) == 2 {
		return s.rw(v.A[0]), s.rw(v.A[1])
	}
	return App("f:Lat", v), App("f:Lng", v)
}

func (e *Engine) s2Models() {
	lt := e.extType(s2Pkg, "LatLng")
	fn := func(names string, f func(c *Call)) {
		for _, n := range strings.Fields(names) {
			e.model(s2Pkg+"."+n, f)
		}
	}
	cid := func(names string, f func(c *Call, x *V)) {
		for _, n := range strings.Fields(names) {
			e.model("("+s2Pkg+".CellID)."+n, func(c *Call) { f(c, c.s.rw(c.args[0])) })
		}
	}
	fn("LatLngFromDegrees", func(c *Call) {
		c.ret(c.s, Struct(lt, []*V{angle(c.args[0]), angle(c.args[1])}))
	})
	e.model("(github.com/golang/geo/s1.Angle).Degrees", func(c *Call) {
		if a := c.s.rw(c.args[0]); a.Op == OApp && a.S == "deg" {
			c.ret(c.s, a.A[0])
			return
		}
		c.ret(c.s, App("degrees", c.args[0]))
	})
	e.model("(github.com/golang/geo/s1.Angle).Radians", func(c *Call) { c.ret(c.s, c.args[0]) })
	fn("PointFromLatLng", func(c *Call) {
		lat, lng := c.s.latlng(c.args[0])
		e.roles(c, lat, lng)
		c.ret(c.s, App("pt", lat, lng))
	})
	fn("LatLngFromPoint", func(c *Call) {
		p := c.s.rw(c.args[0])
		if p.Op == OApp && p.S == "pt" {
			c.ret(c.s, Struct(lt, []*V{p.A[0], p.A[1]}))
			return
		}
		c.ret(c.s, Struct(lt, []*V{App("latof", p), App("lngof", p)}))
	})
	e.model("("+s2Pkg+".LatLng).IsValid", func(c *Call) {
		lat, lng := c.s.latlng(c.args[0])
		c.ret(c.s, App("ll.valid", lat, lng))
	})
	e.model("("+s2Pkg+".LatLng).Normalized", func(c *Call) { c.ret(c.s, c.args[0]) })

	// cells
	fn("CellIDFromLatLng", func(c *Call) {
		lat, lng := c.s.latlng(c.args[0])
		e.roles(c, lat, lng)
		c.ret(c.s, App("leaf", App("pt", lat, lng)))
	})
	fn("CellFromLatLng", func(c *Call) {
		lat, lng := c.s.latlng(c.args[0])
		e.roles(c, lat, lng)
		c.ret(c.s, App("cell", App("leaf", App("pt", lat, lng))))
	})
	fn("CellFromPoint", func(c *Call) { c.ret(c.s, App("cell", App("leaf", c.s.rw(c.args[0])))) })
	fn("CellFromCellID", func(c *Call) { c.ret(c.s, App("cell", c.s.rw(c.args[0]))) })
	cellOf := func(s *State, v *V) *V {
		v = s.rw(v)
		if v.Op == OApp && v.S == "cell" {
			return v.A[0]
		}
		return App("cellid", v)
	}
	e.model("("+s2Pkg+".Cell).ID", func(c *Call) { c.ret(c.s, cellOf(c.s, c.args[0])) })
	e.model("("+s2Pkg+".Cell).Level", func(c *Call) { c.ret(c.s, c.s.level(cellOf(c.s, c.args[0]))) })
	e.model("("+s2Pkg+".Cell).Center", func(c *Call) { c.ret(c.s, App("center", cellOf(c.s, c.args[0]))) })
	e.model("("+s2Pkg+".Cell).Vertex", func(c *Call) {
		if !e.inRange(c.s, c.args[1], Int(4), c.pos()) {
			return
		}
		c.ret(c.s, App("vertex", cellOf(c.s, c.args[0]), c.s.rw(c.args[1])))
	})
	cid("Point", func(c *Call, x *V) { c.ret(c.s, App("center", x)) })
	cid("LatLng", func(c *Call, x *V) {
		p := App("center", x)
		c.ret(c.s, Struct(lt, []*V{App("latof", p), App("lngof", p)}))
	})
	lsb := func(x *V) *V {
		l := App("lsb", x)
		return l
	}
	cid("RangeMin", func(c *Call, x *V) { c.ret(c.s, AddN(Sub(x, lsb(x)), 1)) })
	cid("RangeMax", func(c *Call, x *V) { c.ret(c.s, AddN(Add(x, lsb(x)), -1)) })
	cid("Next", func(c *Call, x *V) {
		// after the last leaf of a cell comes the leaf two further
		if _, d := rangeEnd(x); d == 0 {
			c.ret(c.s, AddN(x, 2))
			return
		}
		c.ret(c.s, Add(x, MulN(lsb(x), 2)))
	})
	cid("Prev", func(c *Call, x *V) { c.ret(c.s, Sub(x, MulN(lsb(x), 2))) })
	cid("ChildBeginAtLevel", func(c *Call, x *V) {
		if n, ok := isInt(c.s.rw(c.args[1])); ok && n == 30 {
			c.ret(c.s, AddN(Sub(x, lsb(x)), 1))
			return
		}
		c.ret(c.s, App("childbegin", x, c.args[1]))
	})
	cid("ChildEndAtLevel", func(c *Call, x *V) {
		if n, ok := isInt(c.s.rw(c.args[1])); ok && n == 30 {
			c.ret(c.s, AddN(Add(x, lsb(x)), 1))
			return
		}
		c.ret(c.s, App("childend", x, c.args[1]))
	})
	cid("Level", func(c *Call, x *V) { c.ret(c.s, c.s.level(x)) })
	cid("IsLeaf", func(c *Call, x *V) { c.ret(c.s, c.s.leafTerm(x)) })
	cid("IsValid", func(c *Call, x *V) { c.ret(c.s, App("validcell", x)) })
	cid("Face", func(c *Call, x *V) {
		f := App("face", x)
		c.s.assume(GE(f), true)
		c.s.assume(GE(AddN(MulN(f, -1), 7)), true)
		c.ret(c.s, f)
	})
	cid("Parent", func(c *Call, x *V) {
		l := c.s.rw(c.args[1])
		if c.s.level(x) == l {
			c.ret(c.s, x)
			return
		}
		c.ret(c.s, App("parent", x, l))
	})
	cid("Children", func(c *Call, x *V) {
		s := c.s
		vs := make([]*V, 4)
		for i := range vs {
			vs[i] = App("child", x, Int(int64(i)))
		}
		c.ret(s, intern(&V{Op: OArr, A: vs, T: c.resType(0)}))
	})
	cid("ToToken", func(c *Call, x *V) { c.ret(c.s, c.rv(App("token", x))) })
	cid("String", func(c *Call, x *V) { c.ret(c.s, c.rv(App("cellstring", x))) })
	cid("Contains", func(c *Call, x *V) { c.ret(c.s, App("cellcontains", x, c.s.rw(c.args[1]))) })
	cid("Intersects", func(c *Call, x *V) { c.ret(c.s, App("cellintersects", x, c.s.rw(c.args[1]))) })
	fn("CellIDFromToken", func(c *Call) { c.ret(c.s, App("fromtoken", c.str(0))) })
	fn("CellIDFromFace", func(c *Call) {
		c.ret(c.s, App("facecell", c.s.rw(c.args[0])))
	})
	fn("CellIDFromFacePosLevel", func(c *Call) { c.ret(c.s, App("faceposcell", c.s.rw(c.args[0]), c.args[1], c.args[2])) })

	// areas
	capOf := func(c *Call, kind string, size *V) {
		c.ret(c.s, App("cap", c.s.rw(c.args[0]), Float(kind), c.s.rw(size)))
	}
	fn("CapFromCenterArea", func(c *Call) { capOf(c, "area", c.args[1]) })
	fn("CapFromCenterAngle", func(c *Call) { capOf(c, "angle", c.args[1]) })
	fn("CapFromCenterHeight", func(c *Call) { capOf(c, "height", c.args[1]) })
	fn("CapFromPoint", func(c *Call) { capOf(c, "angle", Float("0")) })
	fn("RectFromLatLng", func(c *Call) {
		lat, lng := c.s.latlng(c.args[0])
		e.roles(c, lat, lng)
		c.ret(c.s, App("rect", App("pt", lat, lng)))
	})
	fn("EmptyRect", func(c *Call) { c.ret(c.s, App("rect")) })
	fn("EmptyCap", func(c *Call) { c.ret(c.s, App("emptycap")) })
	e.model("("+s2Pkg+".Rect).AddPoint", func(c *Call) {
		lat, lng := c.s.latlng(c.args[1])
		e.roles(c, lat, lng)
		r := c.s.rw(c.args[0])
		if r.Op != OApp || r.S != "rect" {
			c.ret(c.s, App("addpoint", r, App("pt", lat, lng)))
			return
		}
		c.ret(c.s, rectOf(append(append([]*V(nil), r.A...), App("pt", lat, lng))))
	})
	for _, t := range []string{"Cap", "Rect"} {
		t := t
		e.model("("+s2Pkg+"."+t+").ContainsPoint", func(c *Call) {
			c.ret(c.s, App("inside", c.s.rw(c.args[0]), c.s.rw(c.args[1])))
		})
		e.model("("+s2Pkg+"."+t+").InteriorContainsPoint", func(c *Call) {
			c.ret(c.s, App("strictlyinside", c.s.rw(c.args[0]), c.s.rw(c.args[1])))
		})
		e.model("("+s2Pkg+"."+t+").RectBound", func(c *Call) { c.ret(c.s, App("bound", c.s.rw(c.args[0]))) })
		e.model("("+s2Pkg+"."+t+").CapBound", func(c *Call) { c.ret(c.s, App("bound", c.s.rw(c.args[0]))) })
		e.model("("+s2Pkg+"."+t+").IsEmpty", func(c *Call) { c.ret(c.s, App("isempty", c.s.rw(c.args[0]))) })
		e.model("("+s2Pkg+"."+t+").IsValid", func(c *Call) { c.ret(c.s, App("isvalid", c.s.rw(c.args[0]))) })
		e.model("("+s2Pkg+"."+t+").ContainsCell", func(c *Call) { c.ret(c.s, App("containscell", c.s.rw(c.args[0]), c.s.rw(c.args[1]))) })
		e.model("("+s2Pkg+"."+t+").IntersectsCell", func(c *Call) { c.ret(c.s, App("intersectscell", c.s.rw(c.args[0]), c.s.rw(c.args[1]))) })
	}
	e.model("("+s2Pkg+".Rect).ContainsLatLng", func(c *Call) {
		lat, lng := c.s.latlng(c.args[1])
		p := App("pt", lat, lng)
		if lat.Op == OApp && lat.S == "latof" && lng.Op == OApp && lng.S == "lngof" && lat.A[0] == lng.A[0] {
			p = lat.A[0]
		}
		c.ret(c.s, App("inside", c.s.rw(c.args[0]), p))
	})

	// shapes
	fn("LoopFromPoints", func(c *Call) {
		o := c.s.newObj(KCell, elemType(c.resType(0)), "fresh")
		o.Val = App("loopval")
		o.Attrs["shape"] = App("loop", App("points", c.s.items(c.args[0])...))
		c.ret(c.s, Ptr(o.ID))
	})
	loop := func(names string, f func(c *Call, id ObjID, sh *V)) {
		for _, n := range strings.Fields(names) {
			e.model("(*"+s2Pkg+".Loop)."+n, func(c *Call) {
				if c.s.truth(isNilTermS(c.args[0])) == 1 {
					e.panicAt(c.s, "nil", "method of a nil loop", c.pos())
					return
				}
				p := c.args[0]
				if p.Op == OPtr && len(p.A) == 0 {
					if sh := c.s.attr(p.Obj, "shape"); sh != nil {
						f(c, p.Obj, c.s.rw(sh))
						return
					}
				}
				f(c, 0, App("deref", p))
			})
		}
	}
	loop("Normalize", func(c *Call, id ObjID, sh *V) {
		if id != 0 && sh.S == "loop" {
			c.s.setAttr(id, "shape", App("loop", sh.A[0], Float("normalized")))
		}
		c.ret(c.s)
	})
	loop("Invert", func(c *Call, id ObjID, sh *V) {
		if id != 0 {
			c.s.setAttr(id, "shape", App("inverted", sh))
		}
		c.ret(c.s)
	})
	for _, n := range strings.Fields("IsEmpty IsFull ContainsOrigin IsNormalized IsHole TurningAngle Area RectBound CapBound") {
		n := n
		loop(n, func(c *Call, id ObjID, sh *V) { c.ret(c.s, App("loop."+n, sh)) })
	}
	loop("Validate", func(c *Call, id ObjID, sh *V) {
		t := c.s.clone()
		c.ret(t, mkErr(t, "invalid loop"))
		c.ret(c.s, vNil)
	})
	loop("NumVertices NumEdges", func(c *Call, id ObjID, sh *V) {
		n := App("loop.n", sh)
		c.s.assume(GE(n), true)
		c.ret(c.s, n)
	})
	for _, n := range strings.Fields("RectBound CapBound") {
		n := n
		e.model("(*"+s2Pkg+".Polyline)."+n, func(c *Call) { c.ret(c.s, App("polyline."+n, c.s.region(c.args[0]))) })
		e.model("("+s2Pkg+".Polyline)."+n, func(c *Call) { c.ret(c.s, App("polyline."+n, c.s.region(c.args[0]))) })
	}
	fn("PolylineFromLatLngs", func(c *Call) {
		s := c.s
		var segs []*V
		for _, g := range s.items(c.args[0]) {
			if g.S == "el" || g.S == "star" {
				var as []*V
				for _, a := range g.A[1:] {
					lat, lng := s.latlng(a)
					e.roles(c, lat, lng)
					as = append(as, App("pt", lat, lng))
				}
				segs = append(segs, Seg(g.S, g.A[0], as...))
				continue
			}
			segs = append(segs, g)
		}
		t := elemType(c.resType(0))
		o := s.newObj(KCell, t, "fresh")
		o.Val = s.mkSlice(under(t).(*types.Slice).Elem(), segs, "fresh")
		c.ret(s, Ptr(o.ID))
	})

	// covers
	fn("NewRegionCoverer", func(c *Call) {
		t := elemType(c.resType(0))
		o := c.s.newObj(KCell, t, "fresh")
		o.Val = zero(t)
		for n, v := range map[string]int64{"MinLevel": 0, "MaxLevel": 30, "LevelMod": 1, "MaxCells": 8} {
			c.s.setFieldOf(o, n, Int(v))
		}
		c.ret(c.s, Ptr(o.ID))
	})
	for _, n := range strings.Fields("Covering InteriorCovering FastCovering CellUnion InteriorCellUnion") {
		n := n
		e.model("(*"+s2Pkg+".RegionCoverer)."+n, func(c *Call) {
			s := c.s
			cs := e.deref(s, c.args[0], c.types[0], c.pos())
			for _, ch := range cs {
				c2 := *c
				c2.s = ch.s
				c2.out = nil
				c2.cover(n, ch.v)
				c.out = append(c.out, c2.out...)
			}
		})
	}
	for _, n := range strings.Fields("Normalize Denormalize ExpandAtLevel ExpandByRadius") {
		n := n
		e.model("(*"+s2Pkg+".CellUnion)."+n, func(c *Call) {
			s := c.s
			p := c.args[0]
			if p.Op == OPtr {
				for _, ch := range s.load(p) {
					t := ch.s
					if n != "Denormalize" && ch.v.Op == OSlice && ch.v.Obj != 0 {
						// the cells are sorted where they are
						e.inputWrite(t, t.mut(ch.v.Obj))
					}
					x := App("changed:"+n, append([]*V{App("list", t.items(ch.v)...)}, c.args[1:]...)...)
					el := types.NewSlice(types.Typ[types.Uint64])
					t.store(p, t.reify(x, el))
					c.ret(t)
				}
				return
			}
			c.ret(s)
		})
	}
}

func rectOf(ps []*V) *V {
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	var out []*V
	for _, p := range ps {
		if len(out) == 0 || out[len(out)-1] != p {
			out = append(out, p)
		}
	}
	return App("rect", out...)
}

// rangeEnd recognises x = c + lsb(c) - 1 + d, the last leaf of cell c plus d.
func rangeEnd(x *V) (*V, int64) {
	if x.Op == OLin && len(x.A) == 2 && x.C[0] == 1 && x.C[1] == 1 {
		for i := 0; i < 2; i++ {
			if l := x.A[i]; l.Op == OApp && l.S == "lsb" && l.A[0] == x.A[1-i] {
				return l.A[0], x.N + 1
			}
		}
	}
	return nil, -1
}

// rangeStart recognises x = c - lsb(c) + 1 + d.
func rangeStart(x *V) (*V, int64) {
	if x.Op == OLin && len(x.A) == 2 {
		for i := 0; i < 2; i++ {
			if l := x.A[i]; l.Op == OApp && l.S == "lsb" && l.A[0] == x.A[1-i] && x.C[i] == -1 && x.C[1-i] == 1 {
				return l.A[0], x.N - 1
			}
		}
	}
	return nil, -1
}

// level of a cell.
func (s *State) level(x *V) *V {
	x = s.rw(x)
	switch {
	case x.Op == OApp && x.S == "parent":
		return x.A[1]
	case x.Op == OApp && x.S == "leaf":
		return Int(30)
	case x.Op == OApp && x.S == "facecell":
		return Int(0)
	case x.Op == OApp && x.S == "child":
		return AddN(s.level(x.A[0]), 1)
	}
	if cv := coverOf(x); cv != nil && (cv.A[0].S == "Covering" || cv.A[0].S == "InteriorCovering" || cv.A[0].S == "FastCovering") && s.eq(cv.A[2], cv.A[3]) {
		return s.rw(cv.A[2])
	}
	l := App("level", x)
	s.assume(GE(l), true)
	s.assume(GE(AddN(MulN(l, -1), 30)), true)
	return l
}

func (s *State) leafTerm(x *V) *V {
	return Eq0(AddN(s.level(x), -30))
}

// coverOf gives the cover a cell is an element of.
func coverOf(x *V) *V {
	if x.Op == OApp && x.S == "elem" && x.A[0].Op == OApp && x.A[0].S == "cover" {
		return x.A[0]
	}
	return nil
}

// region is the term of a shape passed to the library.
func (s *State) region(v *V) *V {
	if v.Op == OIface {
		v = v.A[0]
	}
	v = s.rw(v)
	if v.Op == OPtr {
		if sh := s.attr(v.Obj, "shape"); sh != nil {
			return s.rw(sh)
		}
		o := s.obj(v.Obj)
		if o.Val != nil && len(v.A) == 0 {
			if typeKey(o.T) == s2Pkg+".Polyline" {
				return App("polyline", App("points", s.items(s.rw(o.Val))...))
			}
			return s.rw(o.Val)
		}
	}
	if v.Op == OSlice {
		return App("polyline", App("points", s.items(v)...))
	}
	return v
}

// cover gives the call a cover as its result.
func (c *Call) cover(kind string, rc *V) {
	s := c.s
	f := func(n string) *V {
		if v := s.objField(rc, n); v != nil {
			return s.rw(v)
		}
		return App("f:"+n, rc)
	}
	reg := s.region(c.args[1])
	x := App("cover", Float(kind), reg, f("MinLevel"), f("MaxLevel"), f("LevelMod"))
	s.assume(App("isnil", x), false)
	if s.ghostOn("area") {
		s.ghost["cover"] = x
	}
	c.ret(s, s.reify(x, types.NewSlice(types.Typ[types.Uint64])))
}

// ---- the roles of coordinates (C28) ----

// leaves lists the coordinate values a term is made of.
func leaves(x *V) (els []*V, syms []*V) {
	var w func(v *V)
	w = func(v *V) {
		switch {
		case v.Op == OApp && v.S == "elem":
			els = append(els, v)
			return
		case v.Op == OSym && strings.HasPrefix(symOf(v).origin, "client:"):
			syms = append(syms, v)
			return
		case v.Op == OApp && (v.S == "latof" || v.S == "lngof"):
			return
		}
		for _, a := range v.A {
			w(a)
		}
	}
	w(x)
	return
}

func coordRole(v *V) (axis, pair string) {
	o := strings.TrimPrefix(symOf(v).origin, "client:")
	for _, a := range []string{"lat", "lng"} {
		if strings.HasPrefix(o, a) {
			return a, o[3:]
		}
	}
	return "", o
}

// roles checks what is used as latitude and as longitude of one position.
func (e *Engine) roles(c *Call, lat, lng *V) {
	s := c.s
	key := "pair:" + e.siteKey(s)
	le, ls := leaves(lat)
	ge, gs := leaves(lng)
	if len(le)+len(ge) > 0 {
		ok := len(le) == 1 && len(ge) == 1 && len(ls)+len(gs) == 0 && le[0].A[0] == ge[0].A[0]
		if ok {
			i, j := s.rw(le[0].A[1]), s.rw(ge[0].A[1])
			ok = s.eq(i, AddN(j, 1)) && s.rw(mod2(j)) == Int(0)
		}
		e.require("C28", key, ok, "a position is made of stored coordinates that are not one longitude/latitude pair (even, odd)"+e.dbg("lat %v lng %v", lat, lng), s, c.pos())
		return
	}
	if len(ls)+len(gs) > 0 {
		ok := len(ls) == 1 && len(gs) == 1
		if ok {
			a, p := coordRole(ls[0])
			b, q := coordRole(gs[0])
			ok = a == "lat" && b == "lng" && p == q
		}
		e.require("C28", key, ok, "the latitude and longitude given by the caller are not used as such"+e.dbg("lat %v lng %v", lat, lng), s, c.pos())
	}
}

// monomial reads a term as coef * x^pow of one symbol.
func monomial(v *V) (coef *big.Rat, x *V, pow int, ok bool) {
	switch {
	case v.Op == OFloat:
		r, good := new(big.Rat).SetString(v.S)
		return r, nil, 0, good
	case v.Op == OInt:
		return new(big.Rat).SetInt64(v.N), nil, 0, true
	case v.Op == OApp && (v.S == "f*" || v.S == "f/") && len(v.A) == 2:
		a, xa, pa, ok1 := monomial(v.A[0])
		b, xb, pb, ok2 := monomial(v.A[1])
		if !ok1 || !ok2 || xa != nil && xb != nil && xa != xb {
			return nil, nil, 0, false
		}
		if xa == nil {
			xa = xb
		}
		if v.S == "f/" {
			if b.Sign() == 0 {
				return nil, nil, 0, false
			}
			return new(big.Rat).Quo(a, b), xa, pa - pb, true
		}
		return new(big.Rat).Mul(a, b), xa, pa + pb, true
	case v.Op == OApp && v.S == "pow" && len(v.A) == 2:
		a, xa, pa, ok := monomial(v.A[0])
		n, _, p2, ok2 := monomial(v.A[1])
		if ok && ok2 && p2 == 0 && n.IsInt() && n.Num().IsInt64() && n.Num().Int64() == 2 {
			return new(big.Rat).Mul(a, a), xa, 2 * pa, true
		}
		return nil, nil, 0, false
	case isAtom(v):
		return big.NewRat(1, 1), v, 1, true
	}
	return nil, nil, 0, false
}

// capSize tells whether the size of a cap is that of the given radius in
// meters: 1 yes, 0 no, -1 unknown.
func capSize(kind string, size, radius *V) int {
	c, x, p, ok := monomial(size)
	if !ok {
		return -1
	}
	if x != radius {
		return 0
	}
	f, _ := c.Float64()
	const circ = 40075017.0
	a := 2 * math.Pi / circ
	want, pow := a, 1
	switch kind {
	case "area":
		want, pow = math.Pi*a*a, 2
	case "height":
		want, pow = a*a/2, 2
	}
	if p != pow {
		return 0
	}
	return b2i(math.Abs(f/want-1) < 0.01)
}
