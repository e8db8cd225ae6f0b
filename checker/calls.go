package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is a call being modelled.
type Call struct {
	e      *Engine
	s      *State
	instr  ssa.CallInstruction
	name   string
	args   []*V
	types  []types.Type // static types of the arguments
	res    *types.Tuple
	deferd bool
	out    []*State
}

// ret ends the call in state s with the given results.
func (c *Call) ret(s *State, res ...*V) {
	if c.deferd {
		c.out = append(c.out, s) // RunDefers is executed again
		return
	}
	s.assign(tupleOf(res))
	c.out = append(c.out, s)
}

func (c *Call) pos() token.Pos { return c.e.pos(c.s) }

func (c *Call) resType(i int) types.Type {
	if c.res == nil || i >= c.res.Len() {
		return nil
	}
	return c.res.At(i).Type()
}

func isSigIface(m *types.Func) types.Type {
	return m.Type().(*types.Signature).Recv().Type()
}

func ifaceMethodName(m *types.Func) string { return m.FullName() }

// callee evaluates the function and arguments of a call.
func (s *State) callee(f *Frame, c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	if c.IsInvoke() {
		args = append(args, s.get(f, c.Value))
		for _, a := range c.Args {
			args = append(args, s.get(f, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, s.get(f, a))
	}
	return s.get(f, c.Value), args
}

func (e *Engine) callValues(s *State, ins ssa.CallInstruction, fn *V, args []*V, deferd bool) []*State {
	e.Stats.Calls++
	com := ins.Common()
	c := &Call{e: e, s: s, instr: ins, args: args, res: com.Signature().Results(), deferd: deferd}
	if com.IsInvoke() {
		recv := args[0]
		if recv.Op == ONil || s.truth(isNilTermS(recv)) == 1 {
			e.panicAt(s, "nil", "method call on a nil interface", ins.Pos())
			return nil
		}
		if isAtom(recv) && s.truth(isNilTermS(recv)) == -1 {
			b := s.clone()
			if b.assume(isNilTermS(recv), true) {
				e.panicAt(b, "nil", "method call on an interface that may be nil: "+descr(recv), ins.Pos())
			}
			if !s.assume(isNilTermS(recv), false) {
				return nil
			}
		}
		c.types = append(c.types, com.Value.Type())
		for _, a := range com.Args {
			c.types = append(c.types, a.Type())
		}
		if recv.Op == OIface && types.IsInterface(recv.T) {
			// an engine handle behind an interface of the engine
			c.args = append([]*V{recv.A[0]}, args[1:]...)
			c.name = com.Method.FullName()
			if k := s.attrStr(recv.A[0].Obj, "res"); k != "" && e.models["handle:"+k+"."+com.Method.Name()] != nil {
				c.name = "handle:" + k + "." + com.Method.Name()
			}
			if e.runModel(c) {
				return c.out
			}
			e.unmodelled(c)
			return c.out
		}
		if recv.Op == OIface {
			m := e.lookupMethod(recv.T, com.Method)
			if m == nil {
				panic("no method " + com.Method.FullName() + " in " + typeKey(recv.T))
			}
			c.args = append([]*V{recv.A[0]}, args[1:]...)
			c.types[0] = recv.T
			return e.callFn(c, m, nil)
		}
		c.name = com.Method.FullName()
		if e.runModel(c) {
			return c.out
		}
		e.unmodelled(c)
		return c.out
	}
	for _, a := range com.Args {
		c.types = append(c.types, a.Type())
	}
	switch fn.Op {
	case OClo:
		return e.callFn(c, fn.Fn, fn.A)
	case ONil:
		e.panicAt(s, "nil", "call of a nil function", ins.Pos())
		return nil
	case OApp:
		if strings.HasPrefix(fn.S, "builtin:") {
			e.builtin(c, fn.S[8:])
			return c.out
		}
	}
	c.name = "dynamic"
	e.unmodelled(c)
	return c.out
}

func fullName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func (e *Engine) callFn(c *Call, fn *ssa.Function, free []*V) []*State {
	c.name = clientName(fullName(fn))
	if r := e.redirect[c.name]; r != nil {
		e.sites[e.siteKey(c.s)+" calls "+c.name] = true
		return e.callFn(c, r, nil)
	}
	if fn.Synthetic == "" || len(fn.Blocks) == 0 {
		if e.runModel(c) {
			return c.out
		}
	}
	if fn.Synthetic == "" && e.summary != nil && e.summary(c, fn) {
		return c.out
	}
	if len(fn.Blocks) > 0 && (fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") || e.inline(fn)) {
		n := 0
		for _, f := range c.s.frames {
			if f.fn == fn {
				n++
			}
		}
		if n < 4 && len(c.s.frames) < 40 {
			f := e.pushFrame(c.s, fn, c.args, free, c.s.site())
			f.defcall = c.deferd
			return []*State{c.s}
		}
	}
	e.unmodelled(c)
	return c.out
}

// site is the local part of here().
func (s *State) site() string {
	f := s.top()
	if len(f.defers) > 0 {
		return fmt.Sprintf("%d.%d.%d", f.blk.Index, f.pc, len(f.defers))
	}
	return fmt.Sprintf("%d.%d", f.blk.Index, f.pc)
}

// callback calls a function value from a model and continues with cont.
func (e *Engine) callback(s *State, fn *V, args []*V, key string, cont func(e *Engine, s *State, res []*V) []*State) []*State {
	if fn.Op != OClo || len(fn.Fn.Blocks) == 0 {
		var res []*V
		if fn.Op == OClo {
			rt := fn.Fn.Signature.Results()
			for i := 0; i < rt.Len(); i++ {
				res = append(res, s.reify(s.sym("result", rt.At(i).Type()), rt.At(i).Type()))
			}
		}
		return cont(e, s, res)
	}
	f := e.pushFrame(s, fn.Fn, args, fn.A, s.site()+key)
	f.cont = cont
	f.contKey = key
	return []*State{s}
}

// engineFn: the function belongs to a storage engine, whose methods do not
// accept a nil receiver.
func engineFn(name string) bool {
	for _, p := range []string{"github.com/boltdb/", "github.com/syndtr/goleveldb/", "github.com/dgraph-io/badger", "github.com/steveyen/gtreap"} {
		if strings.HasPrefix(name, "(*"+p) {
			return true
		}
	}
	return false
}

func (e *Engine) runModel(c *Call) bool {
	m := e.models[c.name]
	if m == nil {
		return false
	}
	if strings.HasPrefix(c.name, "(*") && len(c.args) > 0 && c.args[0].Op == ONil && engineFn(c.name) {
		c.e.panicAt(c.s, "nil", "method call on a nil "+shortName(c.name), c.pos())
		return true
	}
	if !m(c) {
		return false
	}
	if fr := c.s.repoFrame(); fr != nil {
		e.sites[fr.fn.String()+" calls "+c.name] = true
	}
	return true
}

// unmodelled gives a call of an unknown function opaque results.  It is
// assumed not to write to its arguments; nothing else is.
func (e *Engine) unmodelled(c *Call) {
	e.unknown[c.name] = true
	s := c.s
	var res []*V
	for i := 0; c.res != nil && i < c.res.Len(); i++ {
		t := c.res.At(i).Type()
		x := s.sym("res:"+shortName(c.name), t)
		if !isErrorType(t) {
			symOf(x).nonnil = isPtrLike(t)
		}
		symOf(x).region = "fresh"
		res = append(res, s.reify(x, t))
	}
	c.ret(s, res...)
}

func isPtrLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// ---- builtins ----

func (e *Engine) builtin(c *Call, name string) {
	s := c.s
	a := c.args
	switch name {
	case "len":
		c.ret(s, s.lenOf(a[0]))
	case "cap":
		switch a[0].Op {
		case OSlice:
			c.ret(s, a[0].A[2])
		case ORef:
			if x := s.attr(a[0].Obj, "cap"); x != nil {
				c.ret(s, x)
				return
			}
			c.ret(s, App("cap", a[0]))
		default:
			c.ret(s, App("cap", a[0]))
		}
	case "append":
		e.doAppend(c)
	case "copy":
		e.doCopy(c)
	case "delete":
		e.mapDelete(c, a[0], a[1])
	case "close":
		e.chanClose(s, a[0], c.instr.Pos())
		c.ret(s)
	case "panic":
		e.panicAt(s, "panic", "explicit panic", c.instr.Pos())
	case "recover":
		c.ret(s, vNil)
	case "print", "println", "clear":
		c.ret(s)
	case "min", "max":
		x := a[0]
		for _, y := range a[1:] {
			d := Sub(y, x)
			switch {
			case s.proveGE(d) == (name == "min") && (s.proveGE(d) || s.proveGE(MulN(d, -1))):
			case s.proveGE(d) || s.proveGE(MulN(d, -1)):
				x = y
			default:
				x = App(name, x, y)
			}
		}
		c.ret(s, x)
	default:
		e.unknown["builtin "+name] = true
		var res []*V
		for i := 0; c.res != nil && i < c.res.Len(); i++ {
			res = append(res, s.reify(s.sym(name, c.res.At(i).Type()), c.res.At(i).Type()))
		}
		c.ret(s, res...)
	}
}

func (s *State) lenOf(x *V) *V {
	switch x.Op {
	case OSlice, OStr:
		return s.sliceLen(x)
	case ONil:
		return Int(0)
	case ORef:
		o := s.obj(x.Obj)
		if n := o.Attrs["len"]; n != nil {
			return s.rw(n)
		}
		return App("len", x)
	case OArr:
		return Int(int64(len(x.A)))
	case OPtr:
		if o := s.obj(x.Obj); o.Kind == KArr {
			return o.Len()
		}
	}
	if s.truth(App("isnil", x)) == 1 {
		return Int(0)
	}
	return App("len", x)
}

func (s *State) segsOf(v *V, bytes bool) []*V {
	if bytes || v.Op == OStr {
		return s.content(v).A
	}
	return s.items(v)
}

func (e *Engine) doAppend(c *Call) {
	s := c.s
	base, more := c.args[0], c.args[1]
	et := under(c.instr.Value().Type()).(*types.Slice).Elem()
	bytes := isByte(et)
	if base.Op == ONil {
		base = nilSlice()
	}
	if more.Op == ONil {
		more = nilSlice()
	}
	if base.Op != OSlice {
		c.ret(s, s.reify(s.sym("append", nil), c.instr.Value().Type()))
		return
	}
	add := s.segsOf(more, bytes)
	n := s.sliceLen(more)
	if s.truth(Eq0(n)) == 1 {
		c.ret(s, base)
		return
	}
	segs := append(append([]*V(nil), s.segsOf(base, bytes)...), add...)
	var alias *V
	if base.Obj != 0 {
		room := Sub(base.A[2], base.A[1])
		if s.truth(Eq0(room)) != 1 {
			// the spare capacity of the array may be used
			o := s.mut(base.Obj)
			at := s.rw(Add(base.A[0], base.A[1]))
			if e.onStore != nil {
				e.onStore(s, o, Ptr(o.ID, at))
			}
			s.clobber(o, at)
			if r := s.regionOfSlice(base); r != "fresh" {
				alias = Float(r)
			}
		}
	}
	no := s.newObj(KArr, et, "fresh")
	no.Bytes = bytes
	no.Segs = segs
	no.norm()
	if alias != nil {
		no.Attrs["alias"] = alias
	}
	if base.Obj != 0 && s.truth(Eq0(Sub(base.A[2], base.A[1]))) != 1 {
		o := s.mut(base.Obj)
		o.Attrs["child"] = Ref(no.ID)
		o.Attrs["childat"] = s.rw(Add(base.A[0], base.A[1]))
		o.Attrs["childbase"] = base.A[0]
	}
	ln := s.rw(Add(base.A[1], n))
	isnil := vFalse
	if s.truth(GE(AddN(n, -1))) != 1 {
		// appending nothing keeps nil
		switch s.truth(base.A[3]) {
		case 0:
		case 1:
			isnil = Eq0(n)
		default:
			isnil = s.sym("nilslice", nil)
		}
	}
	c.ret(s, SliceV(no.ID, Int(0), ln, App("cap", Ref(no.ID)), isnil))
}

// clobber forgets what other slices saw of the array behind position at.
func (s *State) clobber(o *Obj, at *V) {
	s.mirrored(o, at)
	if l, r, ok := splitSegs(s, o.Segs, at); ok {
		keep := true
		for _, g := range r {
			if g.S != "zero" {
				keep = false
			}
		}
		if !keep {
			o.Segs = append(append([]*V(nil), l...), s.unkSeg(o, segsLen(r)))
		}
	}
	if ch := o.Attrs["child"]; ch != nil && s.heap[ch.Obj] != nil && ch.Obj != o.ID {
		co := s.mut(ch.Obj)
		rel := s.rw(Sub(at, o.Attrs["childbase"]))
		if l, r, ok := splitSegs(s, co.Segs, rel); ok {
			if len(r) > 0 {
				co.Segs = append(append([]*V(nil), l...), s.unkSeg(co, segsLen(r)))
			}
		} else {
			co.Segs = []*V{s.unkSeg(co, co.Len())}
		}
	}
}

func (e *Engine) doCopy(c *Call) {
	s := c.s
	dst, src := c.args[0], c.args[1]
	nd, ns := s.sliceLen(dst), s.sliceLen(src)
	do := func(s *State, n *V) {
		if dst.Op == OSlice && dst.Obj != 0 {
			o := s.mut(dst.Obj)
			var add []*V
			segs := s.segsOf(src, o.Bytes)
			if g, ok := subSegs(s, segs, Int(0), n); ok {
				add = g
			} else {
				add = []*V{s.unkSeg(o, n)}
			}
			if s.truth(Eq0(n)) != 1 {
				if e.onStore != nil {
					e.onStore(s, o, Ptr(o.ID, dst.A[0]))
				}
				o.Attrs["dirty"] = vTrue
				s.overwrite(o, s.rw(dst.A[0]), add)
			}
		}
		c.ret(s, n)
	}
	d := Sub(nd, ns)
	if s.proveGE(d) {
		do(s, ns)
		return
	}
	if s.proveGE(MulN(d, -1)) {
		do(s, nd)
		return
	}
	b := s.clone()
	if s.assume(GE(d), true) {
		do(s, ns)
	}
	if b.assume(GE(d), false) {
		do(b, nd)
	}
}

// ---- maps ----

// mapKey is the form of a key used for comparisons.
func mapKeyEq(s *State, a, b *V, t types.Type) *V { return s.equal(a, b, t) }

func (e *Engine) mapOf(s *State, m *V) (ObjID, bool) {
	if m.Op == ORef {
		return m.Obj, true
	}
	return 0, false
}

// mapRef resolves an opaque map; nil maps are reported by ok=false.
func (e *Engine) mapCases(s *State, m *V, mt types.Type) []choice {
	if m.Op == ORef || m.Op == ONil {
		return one(s, m)
	}
	switch s.truth(App("isnil", m)) {
	case 1:
		return one(s, vNil)
	case 0:
		return one(s, s.reify(m, mt))
	}
	b := s.clone()
	var out []choice
	if b.assume(App("isnil", m), true) {
		out = append(out, choice{b, vNil})
	}
	if s.assume(App("isnil", m), false) {
		out = append(out, choice{s, s.reify(m, mt)})
	}
	return out
}

func (e *Engine) mapLookup(s *State, m, k *V, mt *types.Map, commaOk bool) []choice {
	res := func(s *State, v *V, ok bool) choice {
		if !ok {
			v = zero(mt.Elem())
		}
		if commaOk {
			return choice{s, Tuple(v, Bool(ok))}
		}
		return choice{s, v}
	}
	var id ObjID
	found := func(s *State, v *V) choice {
		s.mut(id).Attrs["last"] = Tuple(s.rw(k), v)
		return res(s, v, true)
	}
	var out []choice
	for _, mc := range e.mapCases(s, m, mt) {
		s, m := mc.s, mc.v
		if m.Op == ONil {
			out = append(out, res(s, nil, false))
			continue
		}
		o := s.obj(m.Obj)
		id = o.ID
		segs := o.Segs
		live := s
		if l := o.Attrs["last"]; l != nil && l.A[0] == s.rw(k) {
			// the same entry as just before
			if len(l.A) == 2 {
				out = append(out, res(s, l.A[1], true))
			} else {
				out = append(out, res(s, nil, false))
			}
			continue
		}
		for i := len(segs) - 1; i >= 0 && live != nil; i-- {
			g := segs[i]
			switch g.S {
			case "el":
				eqc := live.equal(g.A[1].A[0], k, mt.Key())
				switch live.truth(eqc) {
				case 1:
					out = append(out, res(live, g.A[1].A[1], true))
					live = nil
				case -1:
					h := live.clone()
					if h.assume(eqc, true) {
						out = append(out, res(h, g.A[1].A[1], true))
					}
					if !live.assume(eqc, false) {
						live = nil
					}
				}
			case "star":
				if w := live.ghost["watchkey"]; w != nil && isIntType(mt.Key()) {
					// see someEntries
					if w == live.rw(k) {
						continue
					}
					if h := live.clone(); h.assume(GE(AddN(g.A[0], -1)), true) {
						v := zero(mt.Elem())
						if v.Op != OStruct || len(v.A) > 0 {
							v = h.sym("other", mt.Elem())
						}
						out = append(out, found(h, v))
					}
					continue
				}
				// found at some position, or not
				j := live.sym("pos", nil)
				symOf(j).nonneg = true
				same := map[*V]bool{}
				for _, alt := range g.A[1:] {
					if same[alt.A[1]] {
						continue
					}
					h := live.clone()
					el := h.instantiate(alt, j)
					if alt.A[1].Op == OStruct && len(alt.A[1].A) == 0 {
						// a set: which of the keys it is does not matter
						if t := h.truth(h.equal(el.A[0], k, mt.Key())); t != 0 && h.assume(GE(AddN(g.A[0], -1)), true) {
							same[alt.A[1]] = true
							out = append(out, found(h, el.A[1]))
						}
						continue
					}
					if h.assume(GE(AddN(Sub(g.A[0], j), -1)), true) && h.assume(h.equal(el.A[0], k, mt.Key()), true) {
						out = append(out, found(h, el.A[1]))
					}
				}
			case "lazy":
				has := App("maphas", g.A[1], k)
				v := App("mapget", g.A[1], k)
				if given, other := live.otherOption(g.A[1], k); other {
					live.assume(has, given)
				}
				t := live.truth(has)
				if t != 0 {
					h := live
					if t == -1 {
						h = live.clone()
					}
					if h.assume(has, true) {
						out = append(out, found(h, h.reify(v, mt.Elem())))
					}
				}
				if t == 1 || !live.assume(has, false) {
					live = nil
				}
			}
		}
		if live != nil {
			live.mut(id).Attrs["last"] = Tuple(live.rw(k))
			out = append(out, res(live, nil, false))
		}
	}
	return out
}

func (e *Engine) mapUpdate(s *State, m, k, v *V, ins *ssa.MapUpdate) []*State {
	mt := under(ins.Map.Type()).(*types.Map)
	var out []*State
cases:
	for _, mc := range e.mapCases(s, m, mt) {
		s, m := mc.s, mc.v
		if m.Op == ONil {
			e.panicAt(s, "nilmap", "assignment to an entry of a nil map", ins.Pos())
			continue
		}
		o := s.mut(m.Obj)
		if e.onStore != nil {
			e.onStore(s, o, Ptr(o.ID, k))
		}
		o.Attrs["dirty"] = vTrue
		known, absent := false, false // the key is there, but not known where
		if l := o.Attrs["last"]; l != nil && l.A[0] == s.rw(k) {
			known, absent = len(l.A) == 2, len(l.A) == 1
		}
		if o.Attrs["last"] != nil {
			delete(o.Attrs, "last")
		}
		if w := s.ghost["watchkey"]; w != nil && isIntType(mt.Key()) && s.truth(Eq0(Sub(w, k))) == 0 {
			// only the entry of the watched cell counts: the others are
			// some others
			e.someEntries(s, o, w, mt, 1)
			s.top().pc++
			out = append(out, s)
			continue
		}
		tup := Tuple(k, v)
		// replaced in place when the key is known to be there
		done, maybe := false, false
		for i := len(o.Segs) - 1; i >= 0 && !done; i-- {
			g := o.Segs[i]
			if g.S == "el" {
				same := s.equal(g.A[1].A[0], k, mt.Key())
				if e.bounded > 0 && s.truth(same) < 0 {
					// go through the keys again in both cases
					delete(o.Attrs, "dirty")
					for _, b := range []bool{true, false} {
						t := s.clone()
						if t.assume(same, b) {
							out = append(out, e.mapUpdate(t, m, k, v, ins)...)
						}
					}
					continue cases
				}
				switch s.truth(same) {
				case 1:
					o.Segs = append([]*V(nil), o.Segs...)
					o.Segs[i] = Seg("el", Int(1), tup)
					done = true
				case -1:
					maybe = true
				}
				continue
			}
			if w := s.ghost["watchkey"]; g.S == "star" && w != nil && w == s.rw(k) {
				continue
			}
			if g.S == "lazy" && s.truth(App("maphas", g.A[1], k)) == 0 {
				continue
			}
			maybe = true
		}
		if !done {
			maybe = maybe && !absent
			n := o.Attrs["len"]
			o.Segs = append(append([]*V(nil), o.Segs...), Seg("el", Int(1), tup))
			if maybe && known {
				o.Attrs["approx"] = vTrue
			} else if maybe {
				x := s.sym("maplen", nil)
				symOf(x).nonneg = true
				s.assume(GE(AddN(x, -1)), true)
				o.Attrs["len"] = x
				o.Attrs["approx"] = vTrue
			} else if n != nil {
				o.Attrs["len"] = AddN(n, 1)
			}
		}
		s.top().pc++
		out = append(out, s)
	}
	return out
}

// someEntries replaces the entries of a map whose keys are not w by unknown
// ones.
func (e *Engine) someEntries(s *State, o *Obj, w *V, mt *types.Map, min int64) {
	n := s.sym("others", nil)
	symOf(n).nonneg = true
	v := zero(mt.Elem())
	if v.Op != OStruct || len(v.A) > 0 {
		v = manyOthers(mt.Elem())
	}
	s.assume(GE(AddN(n, -min)), true)
	segs := []*V{Seg("star", n, Tuple(manyOthers(mt.Key()), v))}
	for _, g := range o.Segs {
		if g.S == "el" && g.A[1].A[0] == w {
			segs = append(segs, g)
			n = AddN(n, 1)
		}
	}
	o.Segs = segs
	o.Attrs["len"] = n
	o.Attrs["approx"] = vTrue
}

// watchedEntry finds the entry of the watched key, all other entries being
// others.
func watchedEntry(s *State, o *Obj, w *V) int {
	at := -1
	for i, g := range o.Segs {
		if g.S == "el" && g.A[1].A[0] == w {
			if at >= 0 {
				return -1
			}
			at = i
		} else if g.S != "star" && g.S != "el" {
			return -1
		}
	}
	return at
}

// manyOthers stands for values of which nothing is known.
func manyOthers(t types.Type) *V {
	k := "others:" + t.String()
	v, ok := symByKey[k]
	if !ok {
		v = newSym("others", t)
		symOf(v).many = true
		symByKey[k] = v
	}
	return v
}

func (e *Engine) mapDelete(c *Call, m, k *V) {
	s := c.s
	mt, _ := under(c.types[0]).(*types.Map)
	for _, mc := range e.mapCases(s, m, mt) {
		s, m := mc.s, mc.v
		if m.Op == ORef {
			o := s.mut(m.Obj)
			delete(o.Attrs, "last")
			if e.onStore != nil {
				e.onStore(s, o, Ptr(o.ID, k))
			}
			if w := s.ghost["watchkey"]; w != nil && isIntType(mt.Key()) {
				if len(o.Segs) > 0 && s.truth(Eq0(Sub(w, k))) == 0 {
					e.someEntries(s, o, w, mt, 0)
					c.ret(s)
					continue
				}
				if i := watchedEntry(s, o, w); i >= 0 && s.rw(k) == w && o.Attrs["len"] != nil {
					o.Segs = append(append([]*V(nil), o.Segs[:i]...), o.Segs[i+1:]...)
					o.Attrs["len"] = AddN(o.Attrs["len"], -1)
					c.ret(s)
					continue
				}
			}
			if e.deleteKnown(s, o, k, mt) {
				c.ret(s)
				continue
			}
			x := s.sym("maplen", nil)
			symOf(x).nonneg = true
			exact := len(o.Segs) > 0
			for i, g := range o.Segs {
				if g.S == "el" && s.truth(s.equal(g.A[1].A[0], k, mt.Key())) == 1 {
					o.Segs = append(append([]*V(nil), o.Segs[:i]...), o.Segs[i+1:]...)
					exact = false
					break
				}
			}
			if exact {
				o.Segs = append(append([]*V(nil), o.Segs...), Seg("deleted", Int(0), k))
			}
			o.Attrs["len"] = x
			o.Attrs["approx"] = vTrue
		}
		c.ret(s)
	}
}

// deleteKnown deletes from a map whose entries are all known.
func (e *Engine) deleteKnown(s *State, o *Obj, k *V, mt *types.Map) bool {
	if o.Attrs["approx"] != nil {
		return false
	}
	at, unsure := -1, false
	for i, g := range o.Segs {
		if g.S != "el" {
			return false
		}
		switch s.truth(s.equal(g.A[1].A[0], k, mt.Key())) {
		case 1:
			at = i
		case -1:
			unsure = true
		}
	}
	if at < 0 {
		return !unsure
	}
	for id, it := range s.heap {
		of, idx := it.Attrs["of"], it.Attrs["idx"]
		if of == nil || idx == nil || of.Op != ORef || of.Obj != o.ID {
			continue
		}
		i, ok := isInt(idx)
		if !ok {
			return false
		}
		if int(i) > at {
			s.setAttr(id, "idx", Int(i-1))
		}
	}
	o.Segs = append(append([]*V(nil), o.Segs[:at]...), o.Segs[at+1:]...)
	o.Attrs["len"] = Int(int64(len(o.Segs)))
	return true
}

func (e *Engine) next(s *State, it *V, v *ssa.Next) []choice {
	o := s.mut(it.Obj)
	of, idx := o.Attrs["of"], o.Attrs["idx"]
	delete(o.Attrs, "counted")
	tt := v.Type().(*types.Tuple)
	end := func(s *State) choice {
		return choice{s, Tuple(vFalse, zero0(tt.At(1).Type()), zero0(tt.At(2).Type()))}
	}
	if o.Attrs["kind"].S == "string" {
		// the runes of a string
		n := App("runecount", of)
		if c, ok := strConst(of); ok {
			rs := []rune(c)
			if i, ok := isInt(idx); ok {
				if int(i) >= len(rs) {
					return []choice{end(s)}
				}
				o.Attrs["idx"] = AddN(idx, 1)
				return one(s, Tuple(vTrue, Int(int64(len(string(rs[:i])))), Int(int64(rs[i]))))
			}
		}
		more := GE(AddN(Sub(n, idx), -1))
		var out []choice
		t := s.truth(more)
		if t != 1 {
			b := s
			if t == -1 {
				b = s.clone()
			}
			if b.assume(more, false) {
				out = append(out, end(b))
			}
		}
		if t != 0 && s.assume(more, true) {
			o = s.mut(it.Obj)
			o.Attrs["idx"] = AddN(idx, 1)
			out = append(out, choice{s, Tuple(vTrue, App("runepos", of, idx), App("rune", of, idx))})
		}
		return out
	}
	mt := under(v.Iter.(*ssa.Range).X.Type()).(*types.Map)
	var out []choice
	for _, mc := range e.mapCases(s, of, mt) {
		s, m := mc.s, mc.v
		if m.Op == ONil {
			out = append(out, end(s))
			continue
		}
		mo := s.obj(m.Obj)
		o = s.mut(it.Obj)
		o.Attrs["of"] = m
		n := mo.Attrs["len"]
		if n.Op == OInt && idx.Op == OInt {
			o.Attrs["counted"] = vTrue
		}
		// a watched entry of a map whose entries are not all known comes at
		// any one point of the iteration
		var watched *V
		if mo.Attrs["approx"] != nil && s.watching() {
			for _, g := range mo.Segs {
				if s.watchedSeg(g) {
					watched = g.A[1]
				}
			}
		}
		more := GE(AddN(Sub(n, idx), -1))
		if watched != nil && o.Attrs["wseen"] == nil {
			if !s.assume(more, true) {
				continue
			}
			b := s.clone()
			bo := b.mut(it.Obj)
			bo.Attrs["wseen"] = vTrue
			bo.Attrs["idx"] = AddN(idx, 1)
			if e.onMapNext != nil {
				e.onMapNext(b, m, idx)
			}
			out = append(out, choice{b, Tuple(vTrue, watched.A[0], watched.A[1])})
			if !s.assume(GE(AddN(Sub(n, idx), -2)), true) {
				continue
			}
		}
		t := s.truth(more)
		if t != 1 {
			b := s
			if t == -1 {
				b = s.clone()
			}
			if b.assume(more, false) && b.assume(Eq0(Sub(n, idx)), true) {
				b.note(v.Pos(), "the range over the map ends")
				out = append(out, end(b))
			}
		}
		if t == 0 || !s.assume(more, true) {
			continue
		}
		o = s.mut(it.Obj)
		o.Attrs["idx"] = AddN(idx, 1)
		if e.onMapNext != nil {
			e.onMapNext(s, m, idx)
		}
		for _, c := range s.entryAt(m.Obj, idx, mt) {
			kv := c.v
			if watched != nil && kv == watched {
				continue
			}
			c.s.note(v.Pos(), "next entry of the map, key "+descr(kv.A[0]))
			out = append(out, choice{c.s, Tuple(vTrue, kv.A[0], kv.A[1])})
		}
	}
	return out
}

func zero0(t types.Type) *V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return vNil
	}
	return zero(t)
}

// entryAt is the idx-th entry of a map in iteration order.
func (s *State) entryAt(id ObjID, idx *V, mt *types.Map) []choice {
	o := s.obj(id)
	lazy := func(s *State, g *V, rel *V) *V {
		i := Add(g.A[2], rel)
		k := s.reify(App("mapkey", g.A[1], i), mt.Key())
		return Tuple(k, s.reify(App("mapval", g.A[1], i), mt.Elem()))
	}
	if o.Attrs["approx"] == nil {
		acc := Int(0)
		for _, g := range o.Segs {
			end := Add(acc, g.A[0])
			if s.le(acc, idx) && s.le(AddN(idx, 1), end) {
				switch g.S {
				case "el":
					return one(s, g.A[1])
				case "lazy":
					return one(s, lazy(s, g, Sub(idx, acc)))
				case "star":
					return s.segAt(o, g, Sub(idx, acc))
				}
			}
			acc = end
		}
	}
	var out []choice
	if o.Attrs["approx"] == nil {
		s.markIndex(id, idx)
	}
	acc := Int(0)
	for _, g := range o.Segs {
		h := s.clone()
		end := Add(acc, g.A[0])
		if o.Attrs["approx"] == nil && s.watching() {
			// entries come in the order of the segments
			if !h.assume(GE(Sub(idx, acc)), true) || !h.assume(GE(AddN(Sub(end, idx), -1)), true) {
				acc = end
				continue
			}
			acc = end
		}
		switch g.S {
		case "el":
			out = append(out, choice{h, g.A[1]})
		case "lazy":
			out = append(out, choice{h, lazy(h, g, idx)})
		case "star":
			out = append(out, h.segAt(o, g, idx)...)
		}
	}
	return out
}

// ---- channels ----

func (e *Engine) chanSend(s *State, ch, x *V, pos token.Pos) {
	if e.chans != nil {
		e.chans.send(e, s, ch, x, pos)
	}
}

func (e *Engine) chanClose(s *State, ch *V, pos token.Pos) {
	if ch.Op == ONil {
		e.panicAt(s, "nilchan", "close of a nil channel", pos)
		return
	}
	if ch.Op == ORef {
		if s.attrIs(ch.Obj, "closed", "yes") {
			e.panicAt(s, "doubleclose", "close of a closed channel", pos)
		}
		s.setAttrS(ch.Obj, "closed", "yes")
	}
	if e.chans != nil {
		e.chans.close(e, s, ch, pos)
	}
}

func (e *Engine) chanRecv(s *State, ch *V, commaOk bool, t types.Type, pos token.Pos) []choice {
	if e.chans != nil {
		if cs := e.chans.recv(e, s, ch, commaOk, t, pos); cs != nil {
			return cs
		}
	}
	et := under(t).(*types.Chan).Elem()
	v := s.reify(s.sym("received", et), et)
	if !commaOk {
		return one(s, v)
	}
	b := s.clone()
	return []choice{{s, Tuple(v, vTrue)}, {b, Tuple(zero(et), vFalse)}}
}

type chanModel interface {
	send(e *Engine, s *State, ch, x *V, pos token.Pos)
	close(e *Engine, s *State, ch *V, pos token.Pos)
	recv(e *Engine, s *State, ch *V, commaOk bool, t types.Type, pos token.Pos) []choice
	selected(e *Engine, s *State, ins *ssa.Select, i int, chans, sends []*V)
}

func (e *Engine) selectOp(s *State, f *Frame, v *ssa.Select) []choice {
	var out []choice
	n := len(v.States)
	var chans, sends []*V
	for _, st := range v.States {
		chans = append(chans, s.get(f, st.Chan))
		if st.Send != nil {
			sends = append(sends, s.get(f, st.Send))
		} else {
			sends = append(sends, nil)
		}
	}
	for i := 0; i < n; i++ {
		if chans[i].Op == ONil {
			continue
		}
		t := s.clone()
		if e.chans != nil {
			e.chans.selected(e, t, v, i, chans, sends)
		}
		var rs []*V
		ok := vFalse
		for j, st := range v.States {
			if st.Dir == types.RecvOnly {
				et := under(st.Chan.Type()).(*types.Chan).Elem()
				if i == j {
					rs = append(rs, t.reify(t.sym("received", et), et))
					ok = t.sym("recvok", nil)
				} else {
					rs = append(rs, zero(et))
				}
			}
		}
		t.note(v.Pos(), fmt.Sprintf("select case %d", i))
		out = append(out, choice{t, Tuple(append([]*V{Int(int64(i)), ok}, rs...)...)})
	}
	if !v.Blocking {
		t := s.clone()
		var rs []*V
		for _, st := range v.States {
			if st.Dir == types.RecvOnly {
				rs = append(rs, zero(under(st.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		out = append(out, choice{t, Tuple(append([]*V{Int(-1), vFalse}, rs...)...)})
	}
	return out
}
