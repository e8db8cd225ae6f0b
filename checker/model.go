package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Shared vocabulary of the models of external functions.

var errorT = types.Universe.Lookup("error").Type()

func (e *Engine) model(names string, f func(c *Call)) {
	for _, n := range strings.Fields(names) {
		if e.models[n] != nil {
			panic("two models of " + n)
		}
		e.models[n] = func(c *Call) bool { f(c); return true }
	}
}

func (c *Call) str(i int) *V { return c.s.rw(c.s.content(c.args[i])) }
func (c *Call) newErr(what string) *V {
	return mkErr(c.s, what)
}

// mkErr is a non-nil error value made here.
func mkErr(s *State, what string) *V {
	v := s.sym("err:"+what, errorT)
	symOf(v).nonnil = true
	symOf(v).distinct = true
	return v
}

// nilness of a value: 1 nil, 0 not nil, -1 unknown.
func (s *State) nilness(v *V) int { return s.truth(isNilTermS(v)) }

// fails continues with a copy of the state in which the call failed; the
// failure must be reported by the operation under way.
func (c *Call) fails(what string, mk func(t *State, err *V)) {
	t := c.s.clone()
	err := mkErr(t, what)
	t.note(c.pos(), shortName(c.name)+" fails")
	t.failed(what, err)
	mk(t, err)
}

func (s *State) failed(what string, err *V) {
	if s.ghost["fail"] == nil {
		s.ghost["fail"] = Float(what)
	}
}

func (s *State) ghostStr(k string) string {
	if v := s.ghost[k]; v != nil && v.Op == OFloat {
		return v.S
	}
	return ""
}
func (s *State) ghostOn(k string) bool { return s.ghost[k] != nil }

// list makes a pinned ghost list.
func (s *State) ghostList(k string) *Obj {
	if v := s.ghost["L"+k]; v != nil {
		return s.mut(v.Obj)
	}
	o := s.newObjAt("ghost:"+k, KArr, nil, "ghost", token.NoPos)
	s.ghost["L"+k] = Ref(o.ID)
	return o
}

func (s *State) logTo(id ObjID, el *V) {
	o := s.mut(id)
	o.Segs = append(append([]*V(nil), o.Segs...), Seg("el", Int(1), el))
	o.norm()
}

// newRes makes an engine handle of a named kind that has to be released.
func (s *State) newRes(kind string, t types.Type, region string) *Obj {
	o := s.newObj(KCell, t, region)
	o.Attrs["res"] = Float(kind)
	o.Attrs["open"] = vTrue
	o.Attrs["pinned"] = vTrue
	if t != nil {
		v := s.sym(kind, t)
		o.Val = s.reify(v, t)
	}
	return o
}

func (s *State) isOpen(id ObjID) bool { return s.attr(id, "open") == vTrue }

func (s *State) release(id ObjID) {
	o := s.mut(id)
	delete(o.Attrs, "open")
	delete(o.Attrs, "pinned")
}

// openRes lists the handles that are still open.
func (s *State) openRes(kinds ...string) []*Obj {
	var out []*Obj
	var ids []int
	for id, o := range s.heap {
		if o.Attrs["open"] == vTrue {
			for _, k := range kinds {
				if o.Attrs["res"] != nil && o.Attrs["res"].S == k {
					ids = append(ids, int(id))
				}
			}
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		out = append(out, s.heap[ObjID(id)])
	}
	return out
}

// recvObj is the object a method's receiver points to.
func (c *Call) recvObj() *Obj {
	p := c.args[0]
	if (p.Op == OPtr || p.Op == ORef) && p.Obj != 0 {
		return c.s.obj(p.Obj)
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldOf reads a field of a struct value by name.
func (s *State) fieldOf(v *V, t types.Type, name string) *V {
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.field(v, i, t)
		}
	}
	return nil
}

func (s *State) setFieldOf(o *Obj, name string, x *V) {
	st := structOf(o.T)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			o.Val = s.update(o.Val, []*V{Fld(i)}, o.T, x)
			return
		}
	}
	panic("no field " + name + " in " + typeKey(o.T))
}

// objField reads a field of the struct a pointer points to.
func (s *State) objField(p *V, name string) *V {
	if p.Op != OPtr {
		return nil
	}
	o := s.obj(p.Obj)
	return s.fieldOf(s.project(o.Val, p.A, o.T), typeAt(o.T, p.A), name)
}

func typeAt(t types.Type, path []*V) types.Type {
	for _, p := range path {
		if p.Op == OFld {
			t = structOf(t).Field(int(p.N)).Type()
		} else {
			t = under(t).(*types.Array).Elem()
		}
	}
	return t
}

// mentions reports whether a value contains a symbol of the given origin prefix.
func mentions(v *V, pred func(i *symInfo) bool) bool {
	r := false
	walk(v, func(x *V) {
		if x.Op == OSym && pred(symOf(x)) {
			r = true
		}
	})
	return r
}

func scribbled(v *V) bool {
	return mentions(v, func(i *symInfo) bool { return strings.HasPrefix(i.origin, "scribbled") })
}

// opSym makes string content from a fresh symbol.
func (s *State) opaqueBytes(origin string, min int64) *V {
	x := s.sym(origin, nil)
	n := App("len", x)
	if min > 0 {
		s.assume(GE(AddN(n, -min)), true)
	}
	return StrV([]*V{Seg("op", n, x, Int(0))})
}

// pure gives the call the result of an uninterpreted function of its arguments.
func (c *Call) pure(name string) {
	var res []*V
	var as []*V
	for i, a := range c.args {
		if i < len(c.types) && (isByteSlice(c.types[i]) || isStringType(c.types[i])) {
			a = c.s.rw(c.s.content(a))
		}
		as = append(as, a)
	}
	x := App(name, as...)
	n := 0
	if c.res != nil {
		n = c.res.Len()
	}
	for i := 0; i < n; i++ {
		y := x
		if n > 1 {
			y = App(fmt.Sprintf("%s.%d", name, i), as...)
		}
		res = append(res, c.s.reify(y, c.resType(i)))
	}
	c.ret(c.s, res...)
}

func (e *Engine) dbg(f string, a ...interface{}) string {
	if !e.debug {
		return ""
	}
	return "\n      " + fmt.Sprintf(f, a...)
}
