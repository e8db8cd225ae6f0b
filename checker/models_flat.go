package main

import "go/types"

// Geometries of go-geom given to the code: flat coordinates of any number of
// positions, of which the first or the last is watched, in any layout.  A
// polygon has any number of rings, of which the first is the outer one.

func (e *Engine) flatModels() {
	f64 := types.Typ[types.Float64]
	e.model("client.flatGeom", func(c *Call) {
		kind, _ := strConst(c.args[0])
		first := c.s.truth(c.args[1]) == 1
		gt := map[string]string{"point": "Point", "polygon": "Polygon", "line": "LineString",
			"multipoint": "MultiPoint", "multiline": "MultiLineString", "multipolygon": "MultiPolygon"}[kind]
		base := c.s
		for layout, stride := range []int64{0, 2, 3, 3, 4} {
			for rings := int64(0); rings < 2; rings++ {
				if rings == 0 && kind != "polygon" {
					continue
				}
				s := base.clone()
				pt := types.NewPointer(e.extType(geomPkg, gt))
				x := s.sym("client:geom", pt)
				symOf(x).region, symOf(x).nonnil = "client:geom", true
				p := s.pointee(x, pt)
				var segs []*V
				if layout > 0 && rings > 0 {
					var ws []*V
					var own []*V
					for d := int64(0); d < stride; d++ {
						w := s.watchSym("client:coordinate", f64)
						ws = append(ws, w)
						own = append(own, Seg("el", Int(1), w))
					}
					n := Int(0)
					if kind != "point" {
						n = s.someElems("positions", f64).A[0]
					}
					l := s.sym("client.flatGeom", types.NewSlice(f64))
					symOf(l).perm, symOf(l).region = true, "client.flatGeom"
					g := Seg("lazy", MulN(n, stride), l, Int(0))
					if n == Int(0) {
						segs = own
					} else if first {
						segs = append(own, g)
					} else {
						segs = append([]*V{g}, own...)
					}
					at := Int(0)
					if !first {
						at = MulN(n, 2)
					}
					s.ghost["flat"] = Tuple(at, MulN(AddN(n, 1), 2), Tuple(ws...), l)
				}
				flat := s.mkSlice(f64, segs, "client:geom")
				s.setAttr(p.Obj, "layout", Int(int64(layout)))
				s.setAttr(p.Obj, "stride", Int(stride))
				if kind == "polygon" {
					n := Int(0)
					var all, ends []*V
					if rings > 0 {
						rt := types.NewPointer(e.extType(geomPkg, "LinearRing"))
						r := s.sym("client:ring", rt)
						symOf(r).region, symOf(r).nonnil = "client:geom", true
						q := s.pointee(r, rt)
						s.setAttr(q.Obj, "layout", Int(int64(layout)))
						s.setAttr(q.Obj, "stride", Int(stride))
						s.setAttr(q.Obj, "flat", flat)
						s.setAttr(p.Obj, "ring", q)
						more := s.someElems("client:ends", types.Typ[types.Int])
						holes := s.someElems("client:holes", f64)
						n = AddN(more.A[0], 1)
						all = append(append(all, segs...), holes)
						ends = []*V{Seg("el", Int(1), segsLen(segs)), more}
					}
					s.setAttr(p.Obj, "rings", n)
					flat = s.mkSlice(f64, all, "client:geom")
					s.setAttr(p.Obj, "ends", s.mkSlice(types.Typ[types.Int], ends, "client:geom"))
				}
				s.setAttr(p.Obj, "flat", flat)
				c.ret(s, Iface(pt, p))
			}
		}
	})
	get := func(name, attr string, f func(c *Call, v *V)) {
		e.model(name, func(c *Call) {
			var v *V
			if c.args[0].Op == OPtr {
				v = c.s.attr(c.args[0].Obj, attr)
			}
			if v == nil {
				panic("the geometry is not one given to " + c.name)
			}
			f(c, v)
		})
	}
	plain := func(c *Call, v *V) { c.ret(c.s, v) }
	g0, g1, g2 := "(*"+geomPkg+".geom0).", "(*"+geomPkg+".geom1).", "(*"+geomPkg+".geom2)."
	get(g0+"FlatCoords", "flat", plain)
	get(g0+"Stride", "stride", plain)
	get(g0+"Layout", "layout", plain)
	get(g2+"Ends", "ends", plain)
	get("(*"+geomPkg+".Polygon).NumLinearRings", "rings", plain)
	get("(*"+geomPkg+".Polygon).LinearRing", "rings", func(c *Call, n *V) {
		s := c.s
		if !e.inRange(s, c.args[1], n, c.pos()) {
			return
		}
		if !s.eq(c.args[1], Int(0)) {
			panic("a ring besides the first one is not modelled")
		}
		c.ret(s, s.attr(c.args[0].Obj, "ring"))
	})
	get(g0+"Empty", "flat", func(c *Call, v *V) { c.ret(c.s, Eq0(c.s.sliceLen(v))) })
	get(g1+"NumCoords", "flat", func(c *Call, v *V) {
		s := c.s
		n := s.rw(s.sliceLen(v))
		st, _ := isInt(s.attr(c.args[0].Obj, "stride"))
		if n == Int(0) {
			c.ret(s, Int(0))
			return
		}
		k, as, cs := linParts(n)
		r := Int(k / st)
		for i, a := range as {
			if cs[i]%st != 0 || k%st != 0 {
				panic("the number of positions is not modelled")
			}
			r = Add(r, MulN(a, cs[i]/st))
		}
		c.ret(s, r)
	})
	get(g1+"Coord", "flat", func(c *Call, v *V) {
		s := c.s
		st, _ := isInt(s.attr(c.args[0].Obj, "stride"))
		if e.inRange(s, AddN(MulN(c.args[1], st), st-1), s.sliceLen(v), c.pos()) {
			c.ret(s, SliceV(v.Obj, Add(v.A[0], MulN(c.args[1], st)), Int(st), Int(st), vFalse))
		}
	})
	for name, d := range map[string]int64{"X": 0, "Y": 1} {
		d := d
		get("(*"+geomPkg+".Point)."+name, "flat", func(c *Call, v *V) {
			if e.inRange(c.s, Int(d), c.s.sliceLen(v), c.pos()) {
				for _, x := range c.s.elAt(v.Obj, AddN(v.A[0], d)) {
					c.ret(x.s, x.v)
				}
			}
		})
	}
	e.model("("+geomPkg+".Layout).Stride", func(c *Call) {
		n, ok := isInt(c.s.rw(c.args[0]))
		if !ok || n > 4 || n < 0 {
			panic("an unknown layout")
		}
		c.ret(c.s, Int([]int64{0, 2, 3, 3, 4}[n]))
	})
	e.model(g1+"Coords "+g2+"Coords "+g0+"Coords "+g0+"Bounds", func(c *Call) { panic(c.name + " is not modelled") })
	e.model("client.isStored", func(c *Call) {
		s := c.s
		op, _ := strConst(c.args[0])
		segs := s.items(c.args[1])
		d := e.dbg("stored %v flat %v", segs, s.ghost["flat"])
		if f := s.ghost["flat"]; f != nil {
			at, n, ws := s.rw(f.A[0]), s.rw(f.A[1]), f.A[2].A
			var pos *V
			pair, height := false, false
			acc := Int(0)
			for i, g := range segs {
				if g.S == "el" && g.A[1] == ws[0] {
					pos = acc
					pair = i+1 < len(segs) && segs[i+1].S == "el" && segs[i+1].A[1] == ws[1]
				}
				for _, w := range ws[2:] {
					height = height || g.S == "el" && contains(g.A[1], w)
				}
				acc = Add(acc, g.A[0])
			}
			e.require("C36", "dimensions:"+op, !height, "an elevation or measure is stored as a coordinate"+d, s, c.pos())
			e.require("C36", "position:"+op, pos != nil && s.eq(pos, at), "a position of the geometry is not stored, or not in its place"+d, s, c.pos())
			e.require("C28", "pair:"+op, pos == nil || pair, "the longitude of a position is not stored right before its latitude"+d, s, c.pos())
			e.require("C36", "count:"+op, s.eq(acc, n), "the stored positions are not those of the (outer ring of the) geometry"+d, s, c.pos())
		}
		c.ret(s)
	})
}
