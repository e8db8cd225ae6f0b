package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Geometries: what the conversions of package geodata may accept, and what
// they have to make of it.

const geomPkg = "github.com/twpayne/go-geom"

func (e *Engine) geoModels() {
	opaque := func(c *Call, nilable bool) {
		s := c.s
		n := "coverer"
		if len(c.args) > 0 {
			n, _ = strConst(c.args[0])
		}
		x := s.sym("client:"+n, c.resType(0))
		symOf(x).region = "client:" + n
		if isPtrLike(c.resType(0)) && !nilable {
			symOf(x).nonnil = true
		}
		c.ret(s, s.reify(x, c.resType(0)))
	}
	e.model("client.geometry", func(c *Call) { opaque(c, true) })
	e.model("client.coverer client.floats", func(c *Call) { opaque(c, false) })
	e.model("client.parts", func(c *Call) {
		s := c.s
		t := under(c.resType(0)).(*types.Slice).Elem()
		w := s.watchSym("client:part", t)
		symOf(w).region = "client:part"
		segs := []*V{Seg("el", Int(1), s.reify(w, t))}
		if s.truth(c.args[0]) == 1 {
			segs = append(segs, s.someElems("client:after", t))
		} else {
			segs = append([]*V{s.someElems("client:before", t)}, segs...)
		}
		c.ret(s, s.mkSlice(t, segs, "client:parts"), s.reify(w, t))
	})
	e.model("client.must", func(c *Call) {
		s := c.s
		p, _ := strConst(c.str(0))
		k, _ := strConst(c.str(1))
		m, _ := strConst(c.str(3))
		if e.debug && s.truth(c.args[2]) != 1 {
			println("MUST", p, k, "\n", s.dump())
		}
		e.require(p, k, s.truth(c.args[2]) == 1, m, s, c.pos())
		if s.assume(c.args[2], true) {
			c.ret(s)
		}
	})
	e.model("client.position", func(c *Call) {
		s := c.s
		x := s.sym("position", types.Typ[types.Int])
		symOf(x).nonneg = true
		if e.bounded > 0 && s.le(c.args[0], Int(4)) {
			for i := int64(0); i < 4; i++ {
				if t := s.clone(); t.assume(GE(AddN(c.args[0], -i-1)), true) {
					c.ret(t, Int(i))
				}
			}
			return
		}
		if s.assume(GE(AddN(Sub(c.args[0], x), -1)), true) {
			c.ret(s, x)
		}
	})
	e.geomModels()
	e.flatModels()
	e.model("client.isRect", func(c *Call) { e.isRect(c) })
	e.model("client.isGeom", func(c *Call) {
		s := c.s
		op, _ := strConst(c.str(0))
		typ, _ := isInt(s.rw(c.args[2]))
		e.isGeom(c, op, c.args[1], typ, c.args[3], c.args[4])
		c.ret(s)
	})
	e.model("client.geos", func(c *Call) {
		s := c.s
		t := under(c.resType(0)).(*types.Slice).Elem()
		w := s.watchSym("client:geo", t)
		symOf(w).region, symOf(w).nonnil = "client:geo", true
		segs := []*V{Seg("el", Int(1), w)}
		k := "client:after"
		if s.truth(c.args[0]) != 1 {
			k = "client:before"
		}
		g := s.someElems(k, t)
		// the elements of the list are not nil
		s.assume(App("all", g.A[0], Not(App("isnil", App("elem", g.A[1], vIdx)))), true)
		if k == "client:before" {
			segs = append([]*V{g}, segs...)
		} else {
			segs = append(segs, g)
		}
		c.ret(s, s.mkSlice(t, segs, "client:geos"), w)
	})
	e.model("client.same", func(c *Call) {
		s := c.s
		a, b := s.rw(c.args[0]), s.rw(c.args[1])
		c.ret(s, Bool(a == b))
	})
	// a map with one watched entry, among others that nothing is known of
	props := func(c *Call) {
		s := c.s
		n, _ := strConst(c.args[0])
		mt := c.resType(0)
		et := under(mt).(*types.Map).Elem()
		k := s.watchSym("client:key", types.Typ[types.String])
		v := s.watchSym("client:value", et)
		symOf(v).region = "client:value"
		s.ghost["watchkey"] = k
		m := s.someElems("client:"+n, types.Typ[types.Int])
		o := s.newObj(KMap, mt, "client:"+n)
		kv := s.reify(k, types.Typ[types.String])
		o.Segs = []*V{Seg("lazy", m.A[0], m.A[1], Int(0)), Seg("el", Int(1), Tuple(kv, v))}
		o.Attrs["len"] = AddN(m.A[0], 1)
		o.Attrs["approx"] = vTrue
		c.ret(s, Ref(o.ID), kv, v)
	}
	e.model("client.props client.jsonProps", props)
	e.model("client.otherKey", func(c *Call) {
		s := c.s
		k := s.watchSym("client:key", types.Typ[types.String])
		s.ghost["watchkey"] = k
		c.ret(s, s.reify(k, types.Typ[types.String]))
	})
	e.model("client.dest", func(c *Call) { c.s.ghost["dest"] = vTrue; c.ret(c.s) })
	const spb = "github.com/golang/protobuf/ptypes/struct"
	e.model("(*"+spb+".Value).GetKind", func(c *Call) {
		s := c.s
		s.forkNil(c.args[0], func(s *State, isnil bool) {
			if isnil {
				c.ret(s, vNil)
			} else {
				for _, d := range e.deref(s, c.args[0], c.types[0], c.pos()) {
					c.ret(d.s, d.s.objField(d.v, "Kind"))
				}
			}
		})
	})
	e.model("client.isLoop", func(c *Call) {
		s := c.s
		op, _ := strConst(c.args[0])
		coords := listRoot(s.items(c.args[1]))
		r := s.region(c.args[2])
		c.ret(s)
		if coords == nil {
			return
		}
		base := r
		if r.Op == OApp && r.S == "inverted" {
			base = r.A[0]
		}
		shape := base.Op == OApp && base.S == "loop" && base.A[0].Op == OApp && base.A[0].S == "points"
		e.require("C31", "shape:"+op, shape, "the loop is not that of the coordinates"+e.dbg("loop %v", r), s, c.pos())
		if shape {
			e.pathOf(c, base, coords, true, op)
			if op == "ccw" {
				e.require("C24", "area:"+op, s.oriented(r), "a loop given clockwise stands for the rest of the world", s, c.pos())
			}
		}
	})
	e.model("client.isPolyline", func(c *Call) { e.isPolyline(c) })
	e.model("client.isCollection", func(c *Call) { e.isCollection(c) })
	e.model("client.isCover", func(c *Call) { e.isCover(c) })
}

// someElems is any number of elements that nothing is known about.
func (s *State) someElems(name string, t types.Type) *V {
	x := s.sym(name, types.NewSlice(t))
	symOf(x).region, symOf(x).perm = name, true
	n := App("len", x)
	s.assume(GE(n), true)
	return Seg("lazy", n, x, Int(0))
}

// listRoot is the list the elements of segs are taken from.
func listRoot(segs []*V) *V {
	for _, g := range segs {
		switch {
		case g.S == "lazy":
			return g.A[1]
		case g.S == "el" && g.A[1].Op == OApp && g.A[1].S == "elem":
			return g.A[1].A[0]
		}
	}
	return nil
}

// position i of the coordinates c, as a point on the sphere.
func positionAt(c, i *V) *V {
	at := func(d int64) *V { return App("deg", mkApp("elem", []*V{c, AddN(MulN(i, 2), d)})) }
	return App("pt", at(1), at(0))
}

// positions tells whether the points are the positions of c from the first
// on, and how many there are.
func (s *State) positions(points []*V, c *V) (n *V, ok bool) {
	n, ok = Int(0), true
	for _, g := range points {
		if s.eq(g.A[0], Int(0)) {
			continue
		}
		switch g.S {
		case "el":
			ok = ok && s.eq(g.A[1], positionAt(c, n))
		case "star":
			for _, a := range g.A[1:] {
				x := s.rw(instAll(a, App("some")))
				ok = ok && x == s.rw(positionAt(c, Add(n, App("some"))))
			}
		default:
			ok = false
		}
		n = Add(n, g.A[0])
	}
	return n, ok
}

// whole tells whether all positions of c are among the first n: the last may
// be missing when it was compared with the first.
func (s *State) wholePath(c, n *V, closed bool) bool {
	if s.eq(MulN(n, 2), App("len", c)) {
		return true
	}
	if !closed || !s.eq(MulN(AddN(n, 1), 2), App("len", c)) {
		return false
	}
	last := s.rw(positionAt(c, n))
	if s.eq(last, positionAt(c, Int(0))) {
		return true
	}
	for f, b := range s.facts {
		if b && (contains(f, last.A[0].A[0]) || contains(f, last.A[1].A[0])) {
			return true
		}
	}
	return false
}

// oriented tells whether something is known about the orientation of a loop.
func (s *State) oriented(sh *V) bool {
	base := sh
	if sh.S == "inverted" {
		base = sh.A[0]
	}
	if len(base.A) > 1 {
		return true
	}
	seen := func(f *V) bool {
		found := false
		walk(f, func(x *V) {
			if x.Op == OApp && strings.HasPrefix(x.S, "loop.") && x.S != "loop.IsEmpty" && x.S != "loop.IsFull" && x.S != "loop.n" && len(x.A) == 1 && x.A[0] == base {
				found = true
			}
		})
		return found
	}
	for f := range s.facts {
		if seen(f) {
			return true
		}
	}
	for _, f := range s.lins {
		if seen(f) {
			return true
		}
	}
	return false
}

// isCover checks a cover against the geometry it was computed for.
func (e *Engine) isCover(c *Call) {
	s := c.s
	op, _ := strConst(c.str(0))
	kind, _ := strConst(c.str(1))
	typ, _ := isInt(s.rw(c.args[3]))
	rc := c.args[4]
	among := s.truth(c.args[6]) == 1
	coords := listRoot(s.items(c.args[2]))
	if coords == nil {
		c.ret(s)
		return
	}
	lim := func(n string) *V {
		if v := s.objField(rc, n); v != nil {
			return s.rw(v)
		}
		return App("f:"+n, App("deref", rc))
	}
	segs := s.items(c.args[5])
	what := [...]string{"point", "polygon", "multi", "line"}[typ]
	if among {
		what = "multi"
	}
	var regions, kinds []*V
	level, stray := true, false
	for _, g := range segs {
		if s.eq(g.A[0], Int(0)) {
			continue
		}
		if typ == 0 {
			x := g.A[len(g.A)-1]
			if g.S == "el" && x.Op == OApp && x.S == "parent" && x.A[0].Op == OApp && x.A[0].S == "leaf" {
				regions = append(regions, x.A[0].A[0])
				level = level && (s.eq(x.A[1], lim("MinLevel")) || s.eq(x.A[1], lim("MaxLevel")))
				continue
			}
			if g.S == "el" && x.Op == OApp && x.S == "leaf" {
				regions = append(regions, x.A[0])
				level = level && (s.eq(Int(30), lim("MinLevel")) || s.eq(Int(30), lim("MaxLevel")))
				continue
			}
		}
		// all of one cover
		var cv *V
		switch {
		case g.S == "lazy" && g.A[1].Op == OApp && g.A[1].S == "cover" && s.eq(g.A[2], Int(0)):
			cv = g.A[1]
		case g.S == "star" && len(g.A) == 2:
			if cv = coverOf(g.A[1]); cv != nil && g.A[1].A[1] != vIdx {
				cv = nil
			}
		}
		if cv == nil || !s.eq(g.A[0], App("len", cv)) {
			stray = true
			continue
		}
		if among && !contains(cv, coords) {
			stray = true
			continue
		}
		regions = append(regions, cv.A[1])
		kinds = append(kinds, cv.A[0])
		level = level && s.eq(cv.A[2], lim("MinLevel")) && s.eq(cv.A[3], lim("MaxLevel"))
	}
	d := e.dbg("type %d coords %v rc %v cover %v", typ, coords, rc, segs)
	one := len(regions) == 1 && (among || !stray)
	e.require("C31", what+":"+op, one, "a geometry is accepted without the cover of its kind being all of the result"+d, s, c.pos())
	if !one {
		c.ret(s)
		return
	}
	e.require("C24", "level:"+what+":"+op, level, "the cells of the cover are not of the levels of the coverer"+d, s, c.pos())
	for _, k := range kinds {
		e.require("C31", "kind:"+what+":"+op, k.S == kind || typ == 0 || k.S == "FastCovering" && kind == "Covering", "the wrong kind of cover is computed"+d, s, c.pos())
	}
	r := regions[0]
	switch typ {
	case 0:
		e.require("C28", what+":"+op, s.eq(r, positionAt(coords, Int(0))), "the cell of a point is not that of its longitude and latitude"+d, s, c.pos())
	case 1, 3:
		base := r
		if r.Op == OApp && r.S == "inverted" {
			base = r.A[0]
		}
		shape := base.Op == OApp && (base.S == "loop" && typ == 1 || base.S == "polyline" && typ == 3) && base.A[0].Op == OApp && base.A[0].S == "points"
		e.require("C31", "shape:"+what+":"+op, shape, "the cover is not that of a polygon or line"+d, s, c.pos())
		if shape {
			e.pathOf(c, base, coords, typ == 1, what+":"+op)
			if typ == 1 {
				e.require("C24", "area:"+what+":"+op, s.oriented(r), "the cells of a polygon given clockwise are those of the rest of the world"+d, s, c.pos())
			}
		}
	}
	c.ret(s)
}

// pathOf checks that a loop or polyline has the positions of coords.
func (e *Engine) pathOf(c *Call, shape, coords *V, closed bool, key string) {
	s := c.s
	d := e.dbg("coords %v shape %v", coords, shape)
	n, ok := s.positions(shape.A[0].A, coords)
	e.require("C28", key, ok, "the coordinates are not read as longitude, latitude pairs"+d, s, c.pos())
	if ok {
		e.require("C28", "all:"+key, s.wholePath(coords, n, closed), "not all positions of the geometry are used"+d, s, c.pos())
	}
}

// isRect checks the bounding rectangle of a geometry.
// orientationSeen: the path depends on the orientation or size of the loop.
func (s *State) orientationSeen(l *V) bool {
	for f := range s.facts {
		seen := false
		walk(f, func(x *V) {
			if x.Op == OApp && len(x.A) == 1 && x.A[0] == l {
				switch x.S {
				case "loop.IsNormalized", "loop.IsHole", "loop.TurningAngle", "loop.Area", "loop.ContainsOrigin", "loop.RectBound", "loop.CapBound":
					seen = seen || x.S != "loop.ContainsOrigin" || s.facts[f]
				}
			}
		})
		if seen {
			return true
		}
	}
	return false
}

func (e *Engine) isRect(c *Call) {
	s := c.s
	op, _ := strConst(c.str(0))
	typ, _ := isInt(s.rw(c.args[2]))
	coords := listRoot(s.items(c.args[1]))
	r := s.rw(c.args[3])
	c.ret(s)
	if coords == nil {
		return
	}
	what := [...]string{"point", "polygon", "multi", "line"}[typ]
	d := e.dbg("type %d coords %v rect %v", typ, coords, r)
	switch typ {
	case 1, 3:
		shape := r.Op == OApp && (r.S == "loop.RectBound" && typ == 1 || r.S == "polyline.RectBound" && typ == 3)
		if shape {
			r = r.A[0]
			if r.Op == OApp && r.S == "inverted" {
				r = r.A[0]
				if !s.orientationSeen(r) {
					e.require("C31", "shape:"+what+":"+op, false, "the bound is that of the outside of the geometry"+d, s, c.pos())
				}
			}
			shape = r.Op == OApp && (r.S == "loop" || r.S == "polyline") && r.A[0].Op == OApp && r.A[0].S == "points"
		}
		e.require("C31", "shape:"+what+":"+op, shape, "the bound is not that of the geometry"+d, s, c.pos())
		if shape {
			e.pathOf(c, r, coords, typ == 1, what+":"+op)
		}
	}
}

// The objects of go-geom that the code makes: the attribute geom holds the
// kind, the layout, the flat coordinates and the ends of the rings.
func (e *Engine) geomModels() {
	mk := func(name, kind string) {
		e.model(geomPkg+"."+name, func(c *Call) {
			s := c.s
			o := s.newObj(KCell, elemType(c.resType(0)), "fresh")
			o.Val = App(kind + "val")
			flat, ends := nilSlice(), nilSlice()
			if len(c.args) > 1 {
				flat = c.args[1]
			}
			if len(c.args) > 2 {
				ends = c.args[2]
			}
			if kind == "multi" {
				l := s.newObj(KArr, types.NewPointer(o.T), "fresh")
				s.setAttr(o.ID, "parts", Ref(l.ID))
			}
			if n, ok := isInt(s.rw(c.args[0])); ok && n >= 0 && n <= 4 && (kind == "point" || kind == "line") {
				s.setAttr(o.ID, "flat", flat)
				s.setAttr(o.ID, "layout", Int(n))
				s.setAttr(o.ID, "stride", Int([]int64{0, 2, 3, 3, 4}[n]))
			}
			s.setAttr(o.ID, "geom", App("geom", Float(kind), s.rw(c.args[0]), flat, ends))
			c.ret(s, Ptr(o.ID))
		})
	}
	mk("NewPointFlat", "point")
	mk("NewLineStringFlat", "line")
	mk("NewPolygonFlat", "polygon")
	mk("NewMultiPolygon", "multi")
	mk("NewMultiPoint", "points")
	e.model("(*"+geomPkg+".MultiPolygon).Push", func(c *Call) {
		s := c.s
		p := c.args[0]
		if p.Op != OPtr || s.attr(p.Obj, "parts") == nil || c.args[1].Op != OPtr {
			e.unmodelled(c)
			return
		}
		s.logTo(s.attr(p.Obj, "parts").Obj, c.args[1])
		c.ret(s, vNil)
	})
	marshal := func(c *Call, v *V) {
		s := c.s
		if !s.ghostOn("encodable") {
			t := s.clone()
			t.note(c.pos(), "the encoding fails")
			c.ret(t, nilSlice(), mkErr(t, "encoding"))
		}
		x := s.sym("json", nil)
		s.assume(App("isnil", x), false)
		if v.Op == OPtr {
			if o := s.heap[v.Obj]; o != nil && o.Val != nil && len(v.A) == 0 {
				v = o.Val
			}
		}
		s.ghost["json"] = x
		s.ghost["marshalled"] = v
		c.ret(s, s.reify(x, c.resType(0)), vNil)
	}
	e.model("(*"+geomPkg+"/encoding/geojson.FeatureCollection).MarshalJSON (*"+geomPkg+"/encoding/geojson.Feature).MarshalJSON", func(c *Call) { marshal(c, c.args[0]) })
	e.model("encoding/json.Marshal", func(c *Call) {
		v := c.args[0]
		if v.Op == OIface {
			v = v.A[0]
		}
		marshal(c, v)
	})
	old := e.summary
	e.summary = func(c *Call, fn *ssa.Function) bool {
		if old != nil && old(c, fn) {
			return true
		}
		if c.s.ghostOn("summariseprops") && fullName(fn) == modPath+"/index/geodata.PropertiesToJSONMap" {
			s := c.s
			o := s.newObj(KMap, c.resType(0), "fresh")
			src := c.args[0]
			if src.Op == ORef {
				if m := s.attr(src.Obj, "memo"); m != nil {
					src = m
				}
			}
			o.Attrs["propsof"] = src
			c.ret(s, Ref(o.ID))
			return true
		}
		return false
	}
	e.model("client.summariseProps", func(c *Call) { c.s.ghost["summariseprops"] = vTrue; c.ret(c.s) })
}

// wholeList tells whether a list is all of x.
func (s *State) wholeList(segs []*V, x *V) bool {
	n := Int(0)
	for _, g := range segs {
		if s.eq(g.A[0], Int(0)) {
			continue
		}
		switch {
		case g.S == "lazy" && g.A[1] == x && s.eq(g.A[2], n):
		case g.S == "el" && s.eq(g.A[1], mkApp("elem", []*V{x, n})):
		case g.S == "star" && len(g.A) == 2 && s.eq(instAll(g.A[1], App("some")), mkApp("elem", []*V{x, Add(n, App("some"))})):
		default:
			return false
		}
		n = Add(n, g.A[0])
	}
	return s.isLen(n, x)
}

// isLen tells whether n is the length of a list; a half is only spoken of when
// the length is known to be even.
func (s *State) isLen(n, x *V) bool {
	return s.eq(n, App("len", x)) || s.eq(n, MulN(App("half", x), 2))
}

// isGeom checks a geometry made from coordinates or parts.
func (e *Engine) isGeom(c *Call, op string, coords *V, typ int64, parts, out *V) {
	s := c.s
	want := [...]string{"point", "polygon", "multi", "line"}[typ]
	gt := [...]string{"Point", "Polygon", "MultiPolygon", "LineString"}[typ]
	d := e.dbg("coords %v out %v", coords, out)
	var g *V
	p := out
	if out.Op == OIface {
		p = out.A[0]
		if typeKey(out.T) != "*"+geomPkg+"."+gt {
			p = vNil
		}
	}
	if p.Op == OPtr {
		g = s.attr(p.Obj, "geom")
	}
	ok := g != nil && g.A[0].S == want
	e.require("C31", want+":"+op, ok, "a geometry is exported as another kind, or not at all"+d, s, c.pos())
	if !ok {
		return
	}
	if want == "multi" {
		root := listRoot(s.items(parts))
		if root == nil {
			return
		}
		n, ok := Int(0), true
		for _, x := range s.heap[s.attr(p.Obj, "parts").Obj].Segs {
			if s.eq(x.A[0], Int(0)) {
				continue
			}
			j := App("some")
			k := j
			if x.S == "el" {
				k = n
			} else if x.S != "star" {
				ok = false
				break
			}
			for _, a := range x.A[1:] {
				a = instAll(a, j)
				if a.Op != OPtr || s.attr(a.Obj, "geom") == nil {
					ok = false
					continue
				}
				own := App("f:Coordinates", App("deref", mkApp("elem", []*V{root, k})))
				g := s.attr(a.Obj, "geom")
				ok = ok && s.sameFlat(g, own, j)
			}
			n = Add(n, x.A[0])
		}
		e.require("C31", "parts:"+op, ok && s.eq(n, App("len", root)), "not all polygons of a multipolygon are exported"+d+e.dbg("parts %v of %v", s.heap[s.attr(p.Obj, "parts").Obj].Segs, root), s, c.pos())
		return
	}
	if root := listRoot(s.items(coords)); root != nil {
		e.require("C28", want+":"+op, s.sameFlat(g, root), "the exported coordinates are not those of the geometry"+e.dbg("geom %v", g), s, c.pos())
	}
}

// sameFlat: a geometry has the coordinates x, two by two.
func (s *State) sameFlat(g, x *V, at ...*V) bool {
	items := func(v *V) []*V {
		segs := append([]*V(nil), s.items(v)...)
		for i := range segs {
			for _, j := range at {
				segs[i] = instAll(segs[i], j)
			}
		}
		return segs
	}
	segs := items(g.A[2])
	ok := s.eq(g.A[1], Int(1)) && s.wholeList(segs, x)
	if g.A[0].S == "polygon" && ok {
		es := items(g.A[3])
		ok = len(es) == 1 && es[0].S == "el" && s.isLen(es[0].A[1], x)
	}
	return ok
}

// isCollection checks a feature collection made of geometries.
func (e *Engine) isCollection(c *Call) {
	s := c.s
	op, _ := strConst(c.str(0))
	typ, _ := isInt(s.rw(c.args[4]))
	c.ret(s)
	v, x := s.ghost["marshalled"], s.ghost["json"]
	ok := v != nil && wholeContent(s.content(c.args[7])) == x
	if ok {
		v = s.expand(v, e.extType(geomPkg+"/encoding/geojson", "FeatureCollection"))
		ok = len(v.A) == 2 && v.A[1].Op == OSlice
	}
	e.require("C31", "encoded:"+op, ok, "the result is not the encoding of a feature collection"+e.dbg("json %v marshalled %v", x, v), s, c.pos())
	if !ok {
		return
	}
	fs := s.items(v.A[1])
	e.require("C31", "count:"+op, s.eq(segsLen(fs), segsLen(s.items(c.args[1]))), "not every geometry is exported"+e.dbg("features %v", fs), s, c.pos())
	pos, _ := s.watchedAt(s.heap[c.args[1].Obj])
	at := Int(0)
	for _, g := range fs {
		if s.watchedSeg(g) {
			f := g.A[1]
			if pos != nil {
				e.require("C31", "order:"+op, s.eq(pos, at), "the geometries are exported in another order"+e.dbg("features %v", fs), s, c.pos())
			}
			e.isFeature(c, op, f, typ)
			return
		}
		at = Add(at, g.A[0])
	}
	e.require("C31", "kept:"+op, false, "a geometry is not exported"+e.dbg("features %v", fs), s, c.pos())
}

// isFeature checks one feature against the geometry it was made from.
func (e *Engine) isFeature(c *Call, op string, f *V, typ int64) {
	s := c.s
	ft := e.extType(geomPkg+"/encoding/geojson", "Feature")
	if f.Op != OPtr || s.heap[f.Obj] == nil || s.heap[f.Obj].Val == nil {
		return
	}
	f = s.expand(s.heap[f.Obj].Val, ft)
	e.isGeom(c, op, c.args[3], typ, c.args[5], f.A[2])
	e.isProps(c, op, f.A[3], c.args[6])
}

func (e *Engine) isProps(c *Call, op string, m, src *V) {
	s := c.s
	if src.Op == ORef {
		if t := s.attr(src.Obj, "memo"); t != nil {
			src = t
		}
	}
	if src.Op == ONil || s.nilness(src) == 1 {
		return
	}
	from := (*V)(nil)
	if m.Op == ORef {
		if from = s.attr(m.Obj, "propsof"); from == nil {
			return // converted in place
		}
	}
	e.require("C32", "props:"+op, from != nil && s.eq(from, src), "a feature does not have the properties of its geometry"+e.dbg("properties %v of %v, not %v", m, from, src), s, c.pos())
}

// isPolyline checks a line made of points.
func (e *Engine) isPolyline(c *Call) {
	s := c.s
	op, _ := strConst(c.str(0))
	c.ret(s)
	v, x := s.ghost["marshalled"], s.ghost["json"]
	ok := v != nil && wholeContent(s.content(c.args[5])) == x
	var g *V
	if ok {
		v = s.expand(v, e.extType(geomPkg+"/encoding/geojson", "Feature"))
		if p := v.A[2]; len(v.A) == 4 && p.Op == OIface && typeKey(p.T) == "*"+geomPkg+".LineString" && p.A[0].Op == OPtr {
			g = s.attr(p.A[0].Obj, "geom")
		}
	}
	e.require("C31", "encoded:"+op, g != nil, "the result is not the encoding of a line"+e.dbg("json %v marshalled %v", x, v), s, c.pos())
	if g == nil {
		return
	}
	root := listRoot(s.items(c.args[3]))
	pos, _ := s.watchedAt(s.heap[c.args[1].Obj])
	n := segsLen(s.items(c.args[1]))
	if root == nil || pos == nil {
		return
	}
	segs := s.items(g.A[2])
	d := e.dbg("line %v of %v", segs, s.items(c.args[1]))
	e.require("C31", "layout:"+op, s.eq(g.A[1], Int(1)), "the positions of a line have another number of dimensions"+d, s, c.pos())
	e.require("C31", "count:"+op, s.eq(segsLen(segs), MulN(n, 2)), "not every point becomes a position of the line"+d, s, c.pos())
	at, lng, lat := Int(0), false, false
	for _, x := range segs {
		switch {
		case x.S == "lazy" && x.A[1] == root:
			lng = s.eq(at, Add(MulN(pos, 2), x.A[2]))
			lat = lng && s.eq(Add(x.A[0], x.A[2]), Int(2))
			lng = lat
		case x.S == "el" && x.A[1] == App("elem", root, Int(0)):
			lng = s.eq(at, MulN(pos, 2))
		case x.S == "el" && x.A[1] == App("elem", root, Int(1)):
			lat = s.eq(at, AddN(MulN(pos, 2), 1))
		}
		at = Add(at, x.A[0])
	}
	e.require("C28", "pair:"+op, lng && lat, "a point is not a position of the line in its place"+d, s, c.pos())
	e.isProps(c, op, v.A[3], c.args[4])
}
