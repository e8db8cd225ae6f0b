package main

import "go/types"

// Sets of cells: lists in which one watched cell is the first, the last or
// absent, and whose other cells are other ones.

func (e *Engine) cellModels() {
	ct := e.extType(s2Pkg, "CellID")
	e.model("client.theCell", func(c *Call) {
		w := c.s.watchSym("client:cell", ct)
		c.s.ghost["watchkey"] = w
		c.ret(c.s, w)
	})
	others := func(s *State, name string) *V {
		return s.someElems("client:"+name, ct) // see otherCell
	}
	// lay puts the watched element at the start, the end or both
	lay := func(s *State, g, el *V, at *V) []*V {
		switch n, _ := isInt(s.rw(at)); n {
		case 1:
			return []*V{el, g}
		case 2:
			return []*V{g, el}
		case 3:
			return []*V{el, g, el}
		}
		return []*V{g}
	}
	e.model("client.cellList", func(c *Call) {
		s := c.s
		n, _ := strConst(c.args[0])
		c.ret(s, s.mkSlice(ct, lay(s, others(s, n), Seg("el", Int(1), s.ghost["watchkey"]), c.args[1]), "client:"+n))
	})
	e.model("client.cellLists", func(c *Call) {
		s := c.s
		n, _ := strConst(c.args[0])
		t := under(c.resType(0)).(*types.Slice).Elem()
		c.ret(s, s.mkSlice(t, lay(s, s.someElems("client:"+n, t), Seg("el", Int(1), c.args[1]), c.args[2]), "client:"+n))
	})
	e.sortModels(ct)
	e.model("client.isSorted", func(c *Call) {
		op, _ := strConst(c.str(0))
		g := c.s.items(c.args[1])
		ok := c.s.truth(GE(AddN(MulN(segsLen(g), -1), 1))) == 1 || len(g) == 1 && g[0].S == "lazy" && isSortedList(g[0].A[1])
		if !ok && e.sawSorted {
			panic("elements of a sorted list are not modelled")
		}
		e.require("C35", "sorted:"+op, ok, "the cells are not returned in ascending order"+e.dbg("%v", StrV(g)), c.s, c.pos())
		c.ret(c.s)
	})
	e.model("client.has", func(c *Call) {
		s := c.s
		op, _ := strConst(c.str(0))
		w := c.args[2]
		n, all := s.occurrences(s.items(c.args[1]), w)
		want, _ := isInt(s.rw(c.args[3]))
		if (!all || n != want) && e.sawSorted {
			panic("elements of a sorted list are not modelled")
		}
		d := e.dbg("%v", StrV(s.items(c.args[1])))
		e.require("C35", "only:"+op, all, "the result may hold a cell that none of the inputs holds, or one too often"+d, s, c.pos())
		if want > 0 {
			e.require("C35", "kept:"+op, !all || n >= want, "a cell is missing from the result"+d, s, c.pos())
		}
		e.require("C35", "once:"+op, !all || n <= want, "a cell is in the result that should not be there, or too often"+d, s, c.pos())
		c.ret(s)
	})
}

// occurrences counts w in a list; all tells whether the rest are known not to
// be w.
func (s *State) occurrences(g []*V, w *V) (n int64, all bool) {
	all = true
	for _, g := range g {
		switch g.S {
		case "el":
			switch s.truth(Eq0(Sub(g.A[1], w))) {
			case 1:
				n++
			case -1:
				all = false
			}
		case "star":
			for _, alt := range g.A[1:] {
				if s.truth(Eq0(Sub(alt, w))) != 0 {
					all = false
				}
			}
		case "lazy":
			x := g.A[1]
			if isSortedList(x) {
				m, ok := s.occurrences(x.A[0].A, w)
				n, all = n+m, all && ok
			} else if x.Op == OApp && x.S == "sub" && x.A[0].Op == OApp && x.A[0].S == "list" {
				if m, ok := s.occurrences(x.A[0].A, w); m > 0 || !ok {
					all = false
				}
			} else if x.Op != OSym {
				all = false
			}
		default:
			all = false
		}
	}
	return n, all
}

func isSortedList(x *V) bool { return x.Op == OApp && x.S == "sorted" }

// sortModels: what sort leaves of a list of cells is the list in ascending
// order, if its comparison is that of cells.
func (e *Engine) sortModels(ct types.Type) {
	// sorted replaces the list by its sorted version
	sorted := func(s *State, list *V) {
		if list.Op != OSlice || list.Obj == 0 {
			return
		}
		e.inputWrite(s, s.mut(list.Obj))
		g := s.items(list)
		if len(g) == 0 || len(g) == 1 && g[0].S == "el" {
			return
		}
		o := s.mut(list.Obj)
		n := segsLen(g)
		if s.rw(list.A[0]) != Int(0) || s.rw(Sub(segsLen(o.Segs), n)) != Int(0) {
			panic("sorting a part of a list is not modelled")
		}
		o.Segs = []*V{Seg("lazy", n, App("sorted", App("list", g...)), Int(0))}
	}
	// check runs the comparison on two cells a < b
	check := func(c *Call, list *V, less func(s *State, i int64, key string, cont func(e *Engine, s *State, res []*V) []*State) []*State) []*State {
		var out []*State
		for i := int64(0); i < 2; i++ {
			i := i
			s := c.s.clone()
			if list.Op != OSlice || list.Obj == 0 || !s.assume(GE(AddN(s.sliceLen(list), -2)), true) {
				return nil
			}
			a, b := s.sym("less", ct), s.sym("more", ct)
			symOf(a).nonneg = true
			s.assume(GE(AddN(Sub(b, a), -1)), true)
			o := s.mut(list.Obj)
			o.Segs = []*V{Seg("el", Int(1), a), Seg("el", Int(1), b), Seg("lazy", AddN(segsLen(o.Segs), -2), s.sym("rest", nil), Int(0))}
			out = append(out, less(s, i, "less", func(e *Engine, s *State, res []*V) []*State {
				ok := s.truth(res[0]) == int(1-i)
				e.require("C35", "order:sort", ok, "the cells are not sorted in ascending order", s, e.pos(s))
				return nil
			})...)
		}
		return out
	}
	isCells := func(c *Call, v *V) bool {
		if v.Op == OIface {
			if t, ok := under(v.T).(*types.Slice); ok {
				return types.Identical(t.Elem(), ct)
			}
		}
		return false
	}
	e.model("sort.Slice sort.SliceStable", func(c *Call) {
		x, fn := c.args[0], c.args[1]
		if !isCells(c, x) {
			panic(c.name + " is not modelled")
		}
		list := x.A[0]
		outs := check(c, list, func(s *State, i int64, key string, cont func(e *Engine, s *State, res []*V) []*State) []*State {
			return e.callback(s, fn, []*V{Int(i), Int(1 - i)}, key, cont)
		})
		sorted(c.s, list)
		c.ret(c.s)
		c.out = append(c.out, outs...)
	})
	e.model("sort.Sort sort.Stable", func(c *Call) {
		x := c.args[0]
		if !isCells(c, x) {
			panic(c.name + " is not modelled")
		}
		list := x.A[0]
		it := e.extType("sort", "Interface").Underlying().(*types.Interface)
		var outs []*State
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Less" {
				continue
			}
			m := e.lookupMethod(x.T, it.Method(i))
			if m == nil {
				panic(c.name + " is not modelled")
			}
			outs = check(c, list, func(s *State, i int64, key string, cont func(e *Engine, s *State, res []*V) []*State) []*State {
				return e.callback(s, intern(&V{Op: OClo, Fn: m}), []*V{list, Int(i), Int(1 - i)}, key, cont)
			})
		}
		sorted(c.s, list)
		c.ret(c.s)
		c.out = append(c.out, outs...)
	})
}
