package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) get(f *Frame, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.Global:
		return s.global(v)
	case *ssa.Function:
		return intern(&V{Op: OClo, Fn: v})
	case *ssa.Builtin:
		return App("builtin:" + v.Name())
	}
	i, ok := f.info.idx[v]
	if !ok || f.env[i] == nil {
		panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, f.fn))
	}
	return f.env[i]
}

func constV(c *ssa.Const) *V {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrConst(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Int(n)
			}
			if n, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return App("const:" + strconv.FormatUint(n, 10))
			}
		case u.Info()&types.IsFloat != 0:
			return Float(constant.ToFloat(c.Value).ExactString())
		}
	}
	return App("const:" + c.Value.ExactString())
}

func (s *State) global(g *ssa.Global) *V {
	id := objID("global:" + g.String())
	if s.heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		o := s.putObj(id, KCell, t, "global:"+g.String(), g.Pos())
		o.Attrs["pinned"] = vTrue
		if v, ok := s.e.globals[g.String()]; ok {
			o.Val = v
		} else if f := s.e.globalInit[g.String()]; f != nil {
			o.Val = f(s)
		} else if a, ok := under(t).(*types.Array); ok {
			o.Kind, o.T, o.Bytes = KArr, a.Elem(), isByte(a.Elem())
			k := "lazy"
			if o.Bytes {
				k = "op"
			}
			o.Segs = []*V{Seg(k, Int(a.Len()), s.globSym(g, t), Int(0))}
		} else {
			o.Val = s.reify(s.globSym(g, t), t)
		}
	}
	return Ptr(id)
}

// globSym is the value of a global the analysis does not look into; error
// values are distinct and never nil.
func (s *State) globSym(g *ssa.Global, t types.Type) *V {
	k := "global " + g.String()
	v, ok := symByKey[k]
	if !ok {
		v = newSym(g.Pkg.Pkg.Name()+"."+g.Name(), t)
		i := symOf(v)
		i.region = "global:" + g.String()
		i.distinct = isErrorType(t)
		i.nonnil = true
		symByKey[k] = v
	}
	return v
}

// ---- control ----

func (e *Engine) pushFrame(s *State, fn *ssa.Function, args []*V, free []*V, site string) *Frame {
	in := e.info(fn)
	ctx := site
	if len(s.frames) > 0 {
		ctx = s.top().ctx + ">" + site
	}
	f := &Frame{fn: fn, info: in, env: make([]*V, len(in.vals)), ctx: ctx, blk: fn.Blocks[0]}
	f.client = isClientFn(fn)
	for i := range fn.Params {
		if i < len(args) {
			f.env[i] = args[i]
		}
	}
	for i := range fn.FreeVars {
		f.env[len(fn.Params)+i] = free[i]
	}
	s.frames = append(s.frames, f)
	if !f.client {
		e.funcs[fn] = true
	}
	return f
}

func isClientFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "verifclient")
}

// assign gives the current instruction its value and moves on.
func (s *State) assign(v *V) {
	f := s.top()
	if val, ok := f.blk.Instrs[f.pc].(ssa.Value); ok {
		f.env[f.info.idx[val]] = v
	}
	f.pc++
}

func (e *Engine) assignAll(cs []choice) []*State {
	var out []*State
	for _, c := range cs {
		if c.s == nil {
			continue
		}
		c.s.assign(c.v)
		out = append(out, c.s)
	}
	return out
}

func (e *Engine) jump(s *State, to *ssa.BasicBlock) []*State {
	f := s.top()
	from := f.blk
	in := f.info
	// leaving loops
	for i, l := range f.loops {
		if !in.loops[l.head].blocks[to] {
			for _, x := range f.loops[i:] {
				if x.hk != "" {
					s.exits = append(s.exits, exitInst{x.hk, x.ver})
				}
			}
			f.loops = f.loops[:i:i]
			break
		}
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []*V
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, s.get(f, phi.Edges[pi]))
	}
	for i, phi := range phis {
		f.env[in.idx[phi]] = vals[i]
	}
	f.prev = from
	f.blk = to
	f.pc = len(phis)
	if in.loops[to] != nil {
		return e.loopHead(s, to)
	}
	if len(to.Preds) > 1 {
		return e.join(s)
	}
	return []*State{s}
}

// join drops states already seen at this point and queues the others.
func (e *Engine) join(s *State) []*State {
	s.gc()
	e.Stats.Joins++
	k := s.posKey()
	m := e.seenAt[k]
	if m == nil {
		m = map[string]bool{}
		e.seenAt[k] = m
	}
	c := s.canon()
	if m[c] {
		return nil
	}
	m[c] = true
	e.push(s)
	return nil
}

func (e *Engine) step(s *State) []*State {
	f := s.top()
	ins := f.blk.Instrs[f.pc]
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		f.pc++
		return []*State{s}
	case *ssa.Jump:
		return e.jump(s, f.blk.Succs[0])
	case *ssa.If:
		return e.branch(s, s.get(f, ins.Cond))
	case *ssa.Return:
		var res []*V
		for _, r := range ins.Results {
			res = append(res, s.get(f, r))
		}
		return e.doReturn(s, res)
	case *ssa.Panic:
		e.panicAt(s, "panic", "explicit panic", ins.Pos())
		return nil
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return []*State{s}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.callValues(s, d.instr, d.fn, d.args, true)
	case *ssa.Defer:
		d := Deferred{instr: ins}
		d.fn, d.args = s.callee(f, ins.Common())
		f.defers = append(f.defers, d)
		f.pc++
		return []*State{s}
	case *ssa.Go:
		fn, args := s.callee(f, ins.Common())
		if e.goModel != nil {
			return e.goModel(s, fn, args, ins)
		}
		if e.onGo != nil {
			e.onGo(s, fn, args, ins)
		}
		f.pc++
		return []*State{s}
	case *ssa.Call:
		fn, args := s.callee(f, ins.Common())
		return e.callValues(s, ins, fn, args, false)
	case *ssa.Store:
		p := s.get(f, ins.Addr)
		x := s.get(f, ins.Val)
		var out []*State
		for _, c := range e.deref(s, p, ins.Addr.Type(), ins.Pos()) {
			c.s.store(c.v, x)
			if e.onStored != nil {
				e.onStored(c.s, c.v, x)
			}
			c.s.top().pc++
			out = append(out, c.s)
		}
		return out
	case *ssa.MapUpdate:
		return e.mapUpdate(s, s.get(f, ins.Map), s.get(f, ins.Key), s.get(f, ins.Value), ins)
	case *ssa.Send:
		e.chanSend(s, s.get(f, ins.Chan), s.get(f, ins.X), ins.Pos())
		f.pc++
		return []*State{s}
	case ssa.Value:
		cs := e.eval(s, f, f.blk.Instrs[f.pc])
		return e.assignAll(cs)
	}
	panic(fmt.Sprintf("unhandled %T in %s", ins, f.fn))
}

func (e *Engine) branch(s *State, c *V) []*State {
	f := s.top()
	t, u := f.blk.Succs[0], f.blk.Succs[1]
	ins := f.blk.Instrs[f.pc].(*ssa.If)
	switch s.truth(c) {
	case 1:
		s.countedTest(ins, t)
		return e.jump(s, t)
	case 0:
		s.countedTest(ins, u)
		return e.jump(s, u)
	}
	a := s
	b := s.clone()
	var out []*State
	if a.assume(c, true) {
		a.note(ins.Cond.Pos(), "taking the branch where "+descr(c))
		out = append(out, e.jump(a, t)...)
	}
	if b.assume(c, false) {
		b.note(ins.Cond.Pos(), "taking the branch where not "+descr(c))
		out = append(out, e.jump(b, u)...)
	}
	return out
}

func descr(c *V) string {
	x := c.String()
	if len(x) > 160 {
		x = x[:160] + "..."
	}
	return x
}

// countedTest notes that a loop exit test was decided by constants.
func (s *State) countedTest(ins *ssa.If, stay *ssa.BasicBlock) {
	f := s.top()
	if len(f.loops) == 0 {
		return
	}
	l := &f.loops[len(f.loops)-1]
	li := f.info.loops[l.head]
	other := f.blk.Succs[0]
	if other == stay {
		other = f.blk.Succs[1]
	}
	if !li.blocks[stay] || li.blocks[other] {
		return
	}
	b, ok := ins.Cond.(*ssa.BinOp)
	if !ok {
		// the exit of a range over a known list
		if x, ok := ins.Cond.(*ssa.Extract); ok {
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				if it := s.get(f, nx.Iter); it.Op == ORef && (s.attr(it.Obj, "counted") != nil || nx.IsString) {
					l.counted = true
				}
			}
		}
		return
	}
	x, y := s.get(f, b.X), s.get(f, b.Y)
	if x.Op == OInt && y.Op == OInt && abs(x.N-y.N) <= maxUnroll {
		t := loopTest{ins, x, y}
		var ts []loopTest
		for _, o := range l.tests {
			if o == t {
				return
			}
			if o.ins != ins {
				ts = append(ts, o)
			}
		}
		l.tests = append(ts, t)
		l.counted = true
	}
}

func (e *Engine) doReturn(s *State, res []*V) []*State {
	f := s.top()
	for i := range f.loops {
		if l := f.loops[i]; l.hk != "" {
			s.exits = append(s.exits, exitInst{l.hk, l.ver})
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.frames = append(s.frames, f)
		if e.stale(s) {
			return nil
		}
		e.ended++
		if e.onEnd != nil {
			e.onEnd(s, res)
		}
		return nil
	}
	if !f.client && len(s.locks) > 0 && s.repoFrame() == nil && s.ghostStr("backend") == "gtreap" {
		e.violate("C17", "held:"+f.fn.String(), f.fn.String()+" returns while it still holds a lock", s, f.blk.Instrs[f.pc].Pos())
		return nil
	} else if !f.client && s.ghostStr("backend") == "gtreap" && s.repoFrame() == nil {
		e.checked("C17", "held:"+f.fn.String())
	}
	if f.cont != nil {
		return f.cont(e, s, res)
	}
	if f.defcall {
		// RunDefers runs again for the remaining ones
		return e.join(s)
	}
	s.assign(tupleOf(res))
	return e.join(s)
}

func tupleOf(res []*V) *V {
	switch len(res) {
	case 0:
		return vUnit
	case 1:
		return res[0]
	}
	return Tuple(res...)
}

func (e *Engine) panicAt(s *State, kind, msg string, pos token.Pos) {
	if e.onPanic != nil {
		e.onPanic(s, kind, msg, pos)
	}
}

// deref makes sure p can be used as an address, forking on nil.
func (e *Engine) deref(s *State, p *V, t types.Type, pos token.Pos) []choice {
	switch p.Op {
	case OPtr:
		return one(s, p)
	case ONil:
		e.panicAt(s, "nil", "nil pointer dereference", pos)
		return nil
	}
	switch s.truth(App("isnil", p)) {
	case 1:
		e.panicAt(s, "nil", "nil pointer dereference", pos)
		return nil
	case -1:
		b := s.clone()
		if b.assume(App("isnil", p), true) {
			e.panicAt(b, "nil", "nil pointer dereference of "+descr(p), pos)
		}
		if !s.assume(App("isnil", p), false) {
			return nil
		}
	}
	return one(s, s.pointee(p, t))
}

// inRange forks out the panic of an index that may be out of range.
func (e *Engine) inRange(s *State, i, n *V, pos token.Pos) bool {
	i, n = s.rw(i), s.rw(n)
	lo := s.truth(GE(i))
	hi := s.truth(GE(AddN(Sub(n, i), -1)))
	if lo == 1 && hi == 1 {
		return true
	}
	e.panicAt(s, "index", fmt.Sprintf("index %s may be out of range of length %s", i, n), pos)
	return s.assume(GE(i), true) && s.assume(GE(AddN(Sub(n, i), -1)), true)
}

func (e *Engine) eval(s *State, f *Frame, v ssa.Instruction) []choice {
	switch v := v.(type) {
	case *ssa.Alloc:
		t := v.Type().(*types.Pointer).Elem()
		o := s.newObj(KCell, t, "fresh")
		if a, ok := under(t).(*types.Array); ok {
			o.Kind, o.T, o.Bytes = KArr, a.Elem(), isByte(a.Elem())
			o.Segs = []*V{Seg("zero", Int(a.Len()))}
			o.norm()
		} else {
			o.Val = zero(t)
		}
		if e.onAlloc != nil {
			e.onAlloc(s, o, t)
		}
		return one(s, Ptr(o.ID))
	case *ssa.BinOp:
		return e.binop(s, v.Op, s.get(f, v.X), s.get(f, v.Y), v.X.Type(), v.Y.Type(), v.Pos())
	case *ssa.UnOp:
		x := s.get(f, v.X)
		switch v.Op {
		case token.MUL:
			var out []choice
			for _, c := range e.deref(s, x, v.X.Type(), v.Pos()) {
				if e.onLoad != nil {
					e.onLoad(c.s, c.v, v.Pos())
				}
				out = append(out, c.s.load(c.v)...)
			}
			return out
		case token.NOT:
			return one(s, Not(x))
		case token.SUB:
			if isIntType(v.Type()) {
				return one(s, MulN(x, -1))
			}
			if x.Op == OFloat && !strings.HasPrefix(x.S, "-") {
				return one(s, Float("-"+x.S))
			}
			return one(s, App("fneg", x))
		case token.ARROW:
			return e.chanRecv(s, x, v.CommaOk, v.X.Type(), v.Pos())
		}
		return one(s, App("unop"+v.Op.String(), x))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		x := s.get(f, *v.Operands(nil)[0])
		return one(s, retype(x, v.(ssa.Value).Type()))
	case *ssa.Convert:
		return one(s, e.convert(s, s.get(f, v.X), v.X.Type(), v.Type()))
	case *ssa.MakeInterface:
		return one(s, Iface(v.X.Type(), s.get(f, v.X)))
	case *ssa.MakeClosure:
		var b []*V
		for _, x := range v.Bindings {
			b = append(b, s.get(f, x))
		}
		return one(s, intern(&V{Op: OClo, Fn: v.Fn.(*ssa.Function), A: b}))
	case *ssa.MakeMap:
		o := s.newObj(KMap, v.Type(), "fresh")
		o.Attrs["len"] = Int(0)
		return one(s, Ref(o.ID))
	case *ssa.MakeChan:
		o := s.newObj(KChan, v.Type(), "fresh")
		o.Attrs["cap"] = s.get(f, v.Size)
		return one(s, Ref(o.ID))
	case *ssa.MakeSlice:
		et := under(v.Type()).(*types.Slice).Elem()
		n, c := s.rw(s.get(f, v.Len)), s.rw(s.get(f, v.Cap))
		if s.truth(GE(n)) != 1 {
			e.panicAt(s, "makeslice", fmt.Sprintf("slice length %s may be negative", n), v.Pos())
			if !s.assume(GE(n), true) {
				return nil
			}
		}
		if n != c && s.truth(GE(Sub(c, n))) != 1 {
			e.panicAt(s, "makeslice", fmt.Sprintf("slice capacity %s may be less than the length", c), v.Pos())
			if !s.assume(GE(Sub(c, n)), true) {
				return nil
			}
		}
		o := s.newObj(KArr, et, "fresh")
		o.Bytes = isByte(et)
		o.Segs = []*V{Seg("zero", c)}
		o.norm()
		return one(s, SliceV(o.ID, Int(0), n, c, vFalse))
	case *ssa.Extract:
		t := s.get(f, v.Tuple)
		if t.Op == OTuple && v.Index < len(t.A) {
			return one(s, t.A[v.Index])
		}
		return one(s, s.reify(App("x:"+strconv.Itoa(v.Index), t), v.Type()))
	case *ssa.Field:
		return one(s, s.field(s.get(f, v.X), v.Field, v.X.Type()))
	case *ssa.FieldAddr:
		var out []choice
		for _, c := range e.deref(s, s.get(f, v.X), v.X.Type(), v.Pos()) {
			p := append(append([]*V(nil), c.v.A...), Fld(v.Field))
			out = append(out, choice{c.s, Ptr(c.v.Obj, p...)})
		}
		return out
	case *ssa.Index:
		x := s.get(f, v.X)
		i := s.get(f, v.Index)
		switch u := under(v.X.Type()).(type) {
		case *types.Array:
			if !e.inRange(s, i, Int(u.Len()), v.Pos()) {
				return nil
			}
			return one(s, s.project(x, []*V{s.rw(i)}, v.X.Type()))
		default: // string
			if !e.inRange(s, i, s.sliceLen(x), v.Pos()) {
				return nil
			}
			return one(s, s.byteAt(x, i))
		}
	case *ssa.IndexAddr:
		return e.indexAddr(s, s.get(f, v.X), s.get(f, v.Index), v.X.Type(), v.Pos())
	case *ssa.Lookup:
		x := s.get(f, v.X)
		i := s.get(f, v.Index)
		if _, ok := under(v.X.Type()).(*types.Map); ok {
			return e.mapLookup(s, x, i, under(v.X.Type()).(*types.Map), v.CommaOk)
		}
		if !e.inRange(s, i, s.sliceLen(x), v.Pos()) {
			return nil
		}
		return one(s, s.byteAt(x, i))
	case *ssa.Slice:
		return e.sliceOp(s, f, v)
	case *ssa.Range:
		x := s.get(f, v.X)
		o := s.newObj(KRes, nil, "fresh")
		o.Attrs["of"] = x
		o.Attrs["idx"] = Int(0)
		if _, ok := under(v.X.Type()).(*types.Map); ok {
			o.Attrs["kind"] = Float("map")
		} else {
			o.Attrs["kind"] = Float("string")
		}
		return one(s, Ref(o.ID))
	case *ssa.Next:
		return e.next(s, s.get(f, v.Iter), v)
	case *ssa.TypeAssert:
		return e.typeAssert(s, s.get(f, v.X), v)
	case *ssa.Select:
		return e.selectOp(s, f, v)
	case *ssa.SliceToArrayPointer:
		x := s.get(f, v.X)
		n := under(v.Type().(*types.Pointer).Elem()).(*types.Array).Len()
		if s.truth(GE(AddN(s.sliceLen(x), -n))) != 1 {
			e.panicAt(s, "index", "slice may be too short for the array", v.Pos())
		}
		o := s.newObj(KArr, under(v.X.Type()).(*types.Slice).Elem(), s.regionOfSlice(x))
		o.Bytes = isByte(o.T)
		if o.Bytes {
			o.Segs = subStr(s, s.content(x).A, Int(0), Int(n)).A
		} else {
			o.Segs, _ = subSegs(s, s.items(x), Int(0), Int(n))
		}
		return one(s, Ptr(o.ID))
	}
	e.unknown[fmt.Sprintf("%T", v)] = true
	return one(s, s.sym("unknown", v.(ssa.Value).Type()))
}

func retype(x *V, t types.Type) *V {
	if x.Op == OStruct || x.Op == OArr {
		n := *x
		n.T = t
		return intern(&n)
	}
	return x
}

func (s *State) byteAt(x, i *V) *V {
	str := s.content(x)
	if seg, ok := subSegs(s, str.A, s.rw(i), Int(1)); ok && len(seg) == 1 {
		g := seg[0]
		switch g.S {
		case "lit":
			return Int(int64(g.Lit()[0]))
		case "byte":
			return g.A[1]
		case "zero":
			return Int(0)
		case "op":
			return App("byte", g.A[1], g.A[2])
		}
	}
	return App("byte", str, s.rw(i))
}

func (e *Engine) indexAddr(s *State, x, i *V, t types.Type, pos token.Pos) []choice {
	i = s.rw(i)
	switch x.Op {
	case OSlice:
		if !e.inRange(s, i, s.sliceLen(x), pos) {
			return nil
		}
		if x.Obj == 0 {
			return nil
		}
		return one(s, Ptr(x.Obj, s.rw(Add(x.A[0], i))))
	case ONil:
		e.panicAt(s, "index", "index of nil", pos)
		return nil
	}
	var out []choice
	for _, c := range e.deref(s, x, t, pos) {
		o := c.s.obj(c.v.Obj)
		if o.Kind == KArr && len(c.v.A) == 0 {
			if !e.inRange(c.s, i, o.Len(), pos) {
				continue
			}
			out = append(out, choice{c.s, Ptr(c.v.Obj, i)})
			continue
		}
		if p, ok := under(t).(*types.Pointer); ok {
			if a, ok := under(p.Elem()).(*types.Array); ok {
				if !e.inRange(c.s, i, Int(a.Len()), pos) {
					continue
				}
			}
		}
		p := append(append([]*V(nil), c.v.A...), i)
		out = append(out, choice{c.s, Ptr(c.v.Obj, p...)})
	}
	return out
}

func (e *Engine) sliceOp(s *State, f *Frame, v *ssa.Slice) []choice {
	x := s.get(f, v.X)
	lo := Int(0)
	if v.Low != nil {
		lo = s.rw(s.get(f, v.Low))
	}
	opt := func(a ssa.Value) *V {
		if a == nil {
			return nil
		}
		return s.rw(s.get(f, a))
	}
	hi, max := opt(v.High), opt(v.Max)
	check := func(a, b *V) bool { // a <= b
		if s.truth(GE(Sub(b, a))) == 1 {
			return true
		}
		e.panicAt(s, "slice", fmt.Sprintf("slice bound %s may exceed %s", a, b), v.Pos())
		return s.assume(GE(Sub(b, a)), true)
	}
	if x.Op == OStr {
		n := s.sliceLen(x)
		if hi == nil {
			hi = n
		}
		if !check(Int(0), lo) || !check(lo, hi) || !check(hi, n) {
			return nil
		}
		return one(s, subStr(s, x.A, lo, s.rw(Sub(hi, lo))))
	}
	var obj ObjID
	off, ln, cp, isnil := Int(0), Int(0), Int(0), vFalse
	switch x.Op {
	case OSlice:
		obj, off, ln, cp, isnil = x.Obj, x.A[0], s.rw(x.A[1]), s.rw(x.A[2]), x.A[3]
	case ONil:
		e.panicAt(s, "nil", "slice of nil array", v.Pos())
		return nil
	default:
		cs := e.deref(s, x, v.X.Type(), v.Pos())
		if len(cs) == 0 {
			return nil
		}
		p := cs[0].v
		o := s.obj(p.Obj)
		if o.Kind == KArr && len(p.A) == 0 {
			obj = p.Obj
			ln = o.Len()
			cp = ln
		} else {
			// an array inside a struct: a private copy of its contents
			a := under(v.X.Type().(*types.Pointer).Elem()).(*types.Array)
			no := s.newObj(KArr, a.Elem(), o.Region)
			no.Bytes = isByte(a.Elem())
			no.Segs = []*V{s.unkSeg(no, Int(a.Len()))}
			obj, ln, cp = no.ID, Int(a.Len()), Int(a.Len())
		}
	}
	if hi == nil {
		hi = ln
	}
	if !check(Int(0), lo) || !check(lo, hi) {
		return nil
	}
	if s.truth(GE(Sub(ln, hi))) != 1 && !check(hi, cp) {
		return nil
	}
	nc := Sub(cp, lo)
	if max != nil {
		if !check(hi, max) || s.truth(GE(Sub(ln, max))) != 1 && !check(max, cp) {
			return nil
		}
		nc = Sub(max, lo)
	}
	// capacity beyond what was known of the array
	if obj != 0 && v.High != nil {
		if o := s.obj(obj); o.Kind == KArr && s.truth(GE(Sub(ln, hi))) != 1 && s.truth(GE(Sub(o.Len(), Add(off, hi)))) != 1 && s.le(o.Len(), Add(off, hi)) {
			o = s.mut(obj)
			o.Segs = append(o.Segs[:len(o.Segs):len(o.Segs)], s.unkSeg(o, s.rw(Sub(Add(off, hi), o.Len()))))
		}
	}
	// slicing nil gives nil
	return one(s, SliceV(obj, s.rw(Add(off, lo)), s.rw(Sub(hi, lo)), s.rw(nc), isnil))
}

// ---- operators ----

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint64, types.Uint, types.Uintptr:
		return true
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloatType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) binop(s *State, op token.Token, x, y *V, t, ty types.Type, pos token.Pos) []choice {
	x, y = s.rw(x), s.rw(y)
	switch op {
	case token.EQL:
		return one(s, s.equal(x, y, t))
	case token.NEQ:
		return one(s, Not(s.equal(x, y, t)))
	case token.LSS:
		return one(s, s.less(x, y, t))
	case token.GTR:
		return one(s, s.less(y, x, t))
	case token.LEQ:
		return one(s, Not(s.less(y, x, t)))
	case token.GEQ:
		return one(s, Not(s.less(x, y, t)))
	}
	if isStringType(t) && op == token.ADD {
		return one(s, StrV(append(append([]*V(nil), x.A...), y.A...)))
	}
	if isFloatType(t) {
		return one(s, App("f"+op.String(), x, y))
	}
	if isIntType(t) {
		nx, cx := isInt(x)
		ny, cy := isInt(y)
		switch op {
		case token.ADD:
			return one(s, Add(x, y))
		case token.SUB:
			return one(s, Sub(x, y))
		case token.MUL:
			if cx {
				return one(s, MulN(y, nx))
			}
			if cy {
				return one(s, MulN(x, ny))
			}
		case token.QUO:
			if !cy && s.truth(Eq0(y)) != 0 {
				e.panicAt(s, "divide", "division by "+descr(y)+" which may be zero", pos)
			}
			if cy && ny > 0 && !isUnsigned64(t) {
				if cx {
					return one(s, Int(nx/ny))
				}
				if q := divLin(x, ny); q != nil {
					return one(s, q)
				}
				if ny == 2 && s.proveGE(x) {
					if s.truth(Eq0(mod2(x))) == 1 {
						if q := divLin(s.rw(x), 2); q != nil {
							return one(s, q)
						}
					}
					return one(s, s.quotient(App("div2", x), x, 2))
				}
				if s.proveGE(x) {
					return one(s, s.quotient(App("quo", x, y), x, ny))
				}
			}
			return one(s, App("quo", x, y))
		case token.REM:
			if !cy && s.truth(Eq0(y)) != 0 {
				e.panicAt(s, "divide", "division by "+descr(y)+" which may be zero", pos)
			}
			if cx && cy && ny != 0 {
				return one(s, Int(nx%ny))
			}
			if cy && ny == 2 && s.proveGE(x) {
				return one(s, mod2(x))
			}
			if cy && ny > 0 && s.proveGE(x) {
				r := App("rem", x, y)
				s.assume(GE(AddN(MulN(r, -1), ny-1)), true)
				return one(s, r)
			}
			return one(s, App("rem", x, y))
		case token.SHL:
			if cy && ny >= 0 && ny < 32 {
				if cx {
					return one(s, Int(nx<<uint(ny)))
				}
				return one(s, MulN(x, 1<<uint(ny)))
			}
		case token.SHR:
			if cy && cx && nx >= 0 {
				return one(s, Int(nx>>uint(ny)))
			}
			if cy && ny == 0 {
				return one(s, x)
			}
			if cy && ny == 1 && !isUnsigned64(t) && s.proveGE(x) {
				return e.binop(s, token.QUO, x, Int(2), t, ty, pos)
			}
			return one(s, App("shr", x, y))
		case token.AND:
			if cx && cy {
				return one(s, Int(nx&ny))
			}
			if cy && ny == 1 && s.proveGE(x) {
				return one(s, mod2(x))
			}
			if cy && ny == 255 {
				return one(s, App("conv:uint8", x))
			}
		case token.OR:
			if cx && cy {
				return one(s, Int(nx|ny))
			}
			if cx && nx == 0 {
				return one(s, y)
			}
			if cy && ny == 0 {
				return one(s, x)
			}
		case token.XOR:
			if cx && cy {
				return one(s, Int(nx^ny))
			}
		case token.AND_NOT:
			if cx && cy {
				return one(s, Int(nx&^ny))
			}
		}
		if x.id > y.id && (op == token.MUL || op == token.OR || op == token.AND || op == token.XOR) {
			x, y = y, x
		}
		return one(s, App("i"+op.String(), x, y))
	}
	if op == token.AND || op == token.OR {
		return one(s, App("b"+op.String(), x, y))
	}
	return one(s, App("op"+op.String(), x, y))
}

func divLin(x *V, k int64) *V {
	n, as, cs := linParts(x)
	if n%k != 0 {
		return nil
	}
	m := map[*V]int64{}
	for i, a := range as {
		if cs[i]%k != 0 {
			return nil
		}
		m[a] = cs[i] / k
	}
	return mkLin(n/k, m)
}

func mod2(x *V) *V {
	n, as, cs := linParts(x)
	m := map[*V]int64{}
	for i, a := range as {
		if cs[i]%2 != 0 {
			m[a] = 1
		}
	}
	r := mkLin(((n%2)+2)%2, m)
	if r.Op == OInt {
		return r
	}
	return App("mod2", r)
}

func (s *State) less(x, y *V, t types.Type) *V {
	if isStringType(t) {
		return Not(GE(s.cmp(x, y)))
	}
	if isFloatType(t) {
		return App("flt", x, y)
	}
	if isUnsigned64(t) {
		nx, cx := isInt(x)
		ny, cy := isInt(y)
		if cx && cy && nx >= 0 && ny >= 0 {
			return Bool(nx < ny)
		}
		if s.proveGE(x) && s.proveGE(y) {
			return GE(AddN(Sub(y, x), -1))
		}
		return App("ult", x, y)
	}
	return GE(AddN(Sub(y, x), -1)) // y - x - 1 >= 0
}

// cmp is the three-way comparison of two byte strings.
func (s *State) cmp(a, b *V) *V {
	a, b = s.rw(s.content(a)), s.rw(s.content(b))
	if a == b {
		return Int(0)
	}
	ca, ok1 := strConst(a)
	cb, ok2 := strConst(b)
	if ok1 && ok2 {
		return Int(int64(strings.Compare(ca, cb)))
	}
	if a.id > b.id {
		return MulN(App("cmp", b, a), -1)
	}
	return App("cmp", a, b)
}

func (s *State) equal(x, y *V, t types.Type) *V {
	if x == y && !isFloatType(t) {
		return vTrue
	}
	if x.Op == ONil {
		return isNilTermS(y)
	}
	if y.Op == ONil {
		return isNilTermS(x)
	}
	if _, ok := under(t).(*types.Slice); ok {
		// only comparison with nil is legal
		if x.Op == OSlice && x.A[3] == vTrue && x.Obj == 0 {
			return isNilTermS(y)
		}
		return isNilTermS(x)
	}
	if isStringType(t) {
		return streq(x, y)
	}
	if isIntType(t) {
		return Eq0(Sub(x, y))
	}
	if x.Op == OBool {
		x, y = y, x
	}
	if y.Op == OBool {
		if y.N == 1 {
			return x
		}
		return Not(x)
	}
	if x.Op == OFloat && y.Op == OFloat {
		return Bool(x.S == y.S)
	}
	if x.Op == OIface && y.Op == OIface {
		if !types.Identical(x.T, y.T) {
			return vFalse
		}
		return s.equal(x.A[0], y.A[0], x.T)
	}
	if x.Op == OIface && distinct(y) || y.Op == OIface && distinct(x) {
		return vFalse
	}
	if (distinct(x) || distinct(y)) && isAtom(x) && isAtom(y) {
		if distinct(x) && distinct(y) && !mayBe(x, y) && !mayBe(y, x) {
			return vFalse
		}
	}
	if x.Op == OPtr && y.Op == OPtr {
		if x.Obj != y.Obj && !s.obj(x.Obj).Many && !s.obj(y.Obj).Many {
			return vFalse
		}
	}
	if x.Op == ORef && y.Op == ORef && x.Obj != y.Obj {
		return vFalse
	}
	if x.Op == OPtr && isAtom(y) && s.obj(x.Obj).Region == "fresh" || y.Op == OPtr && isAtom(x) && s.obj(y.Obj).Region == "fresh" {
		return vFalse
	}
	return eqApp(x, y)
}

func eqApp(x, y *V) *V {
	if x.id > y.id {
		x, y = y, x
	}
	return App("eq", x, y)
}

// mayBe: the error of a failing engine operation may be the given error
// variable of the engine.
func mayBe(err, glob *V) bool {
	if x, y := symOf(err), symOf(glob); x != y && strings.HasPrefix(x.origin, "err:") && strings.HasPrefix(y.region, "global:") {
		name := strings.TrimPrefix(y.region, "global:")
		i := strings.LastIndex(name, ".")
		switch name[i+1:] {
		case "ErrKeyNotFound", "ErrNotFound", "ErrBucketExists", "ErrBucketNotFound", "ErrEmptyKey", "ErrNoRewrite":
			return false // no failures: the models return them
		}
		return engineFn("(*" + name)
	}
	return false
}

func distinct(v *V) bool { return v.Op == OSym && symOf(v).distinct }

func isNilTermS(v *V) *V {
	if v.Op == OSym && symOf(v).nonnil {
		return vFalse
	}
	return isNilTerm(v)
}

func streq(x, y *V) *V {
	if x == y {
		return vTrue
	}
	ca, ok1 := strConst(x)
	cb, ok2 := strConst(y)
	if ok1 && ok2 {
		return Bool(ca == cb)
	}
	if ok1 && ca == "" {
		return Eq0(strLen(y))
	}
	if ok2 && cb == "" {
		return Eq0(strLen(x))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return App("streq", x, y)
}

func intSize(t types.Type) (size int, unsigned bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

// quotient notes the bounds of q = x/n.
func (s *State) quotient(q, x *V, n int64) *V {
	s.assume(GE(Sub(x, MulN(q, n))), true)
	s.assume(GE(AddN(Sub(MulN(q, n), x), n-1)), true)
	return q
}

func (e *Engine) convert(s *State, x *V, from, to types.Type) *V {
	switch {
	case isStringType(to):
		if isStringType(from) {
			return x
		}
		if isByteSlice(from) {
			return s.content(x)
		}
		if isIntType(from) {
			if n, ok := isInt(s.rw(x)); ok {
				return StrConst(string(rune(n)))
			}
			return s.reify(App("runestr", x), to)
		}
		return s.reify(App("convstr", x), to)
	case isByteSlice(to):
		if isStringType(from) {
			return s.mkBytes(x, "fresh")
		}
		return x
	case isIntType(to) && isIntType(from):
		ts, tu := intSize(to)
		fs, fu := intSize(from)
		if fs == 64 && fu && ts == 64 && !tu && s.ghost["watchkey"] != nil && x.Op == OSym {
			return App("conv:int64", x) // of a cell: may be negative
		}
		if ts == 64 && (fs == 64 || fu || !tu) {
			return x
		}
		if ts >= fs && fu {
			return x
		}
		if ts == fs && tu == fu {
			return x
		}
		if n, ok := isInt(x); ok && n >= 0 && n < 1<<uint(ts-1) {
			return x
		}
		return App("conv:"+under(to).(*types.Basic).Name(), x)
	case isFloatType(to) && isIntType(from):
		if n, ok := isInt(x); ok {
			return Float(strconv.FormatInt(n, 10))
		}
		return App("i2f", x)
	case isFloatType(to) && isFloatType(from):
		if under(to) == under(from) || under(to).(*types.Basic).Kind() == types.Float64 {
			return x
		}
		return App("f32", x)
	case isIntType(to) && isFloatType(from):
		r := App("f2i", x)
		if ts, _ := intSize(to); ts != 64 {
			r = App("conv:"+under(to).(*types.Basic).Name(), r)
		}
		return r
	}
	if _, ok := under(to).(*types.Slice); ok && isStringType(from) {
		return s.reify(App("runes", x), to)
	}
	return retype(x, to)
}

func (e *Engine) typeAssert(s *State, x *V, v *ssa.TypeAssert) []choice {
	res := func(s *State, val *V, ok bool) choice {
		if v.CommaOk {
			if !ok {
				val = zero(v.AssertedType)
			}
			return choice{s, Tuple(val, Bool(ok))}
		}
		return choice{s, val}
	}
	fail := func(s *State) []choice {
		if v.CommaOk {
			return []choice{res(s, nil, false)}
		}
		e.panicAt(s, "assert", "type assertion may fail", v.Pos())
		return nil
	}
	isIf := types.IsInterface(v.AssertedType)
	switch x.Op {
	case OIface:
		if isIf {
			if types.Implements(x.T, under(v.AssertedType).(*types.Interface)) {
				return []choice{res(s, x, true)}
			}
			return fail(s)
		}
		if types.Identical(x.T, v.AssertedType) {
			return []choice{res(s, x.A[0], true)}
		}
		return fail(s)
	case ONil:
		return fail(s)
	}
	if s.truth(App("isnil", x)) == 1 {
		return fail(s)
	}
	// opaque dynamic type
	c := App("istype:"+typeKey(v.AssertedType), x)
	val := x
	if !isIf {
		val = nil
	}
	var out []choice
	if x.Op == OApp && x.S == "mapget" && !isIf && s.truth(c) == -1 && !s.knownOtherType(x, v.AssertedType) {
		if given, other := s.otherOption(x.A[0], x.A[1]); other && given {
			s.assume(c, true)
			s.assume(App("isnil", x), false)
		}
	}
	t := s.truth(c)
	if t != 1 {
		// another concrete type already known?
		f := s
		if t == -1 {
			f = s.clone()
		}
		if f.assume(c, false) {
			if t == -1 {
				f.note(v.Pos(), "the dynamic type is not "+typeKey(v.AssertedType))
			}
			out = append(out, fail(f)...)
		}
	}
	if t != 0 && !(t == -1 && !isIf && s.knownOtherType(x, v.AssertedType)) {
		if s.assume(c, true) && s.assume(App("isnil", x), false) {
			if val == nil {
				val = s.reify(App("as:"+typeKey(v.AssertedType), x), v.AssertedType)
			}
			out = append(out, res(s, val, true))
		}
	}
	return out
}

// knownOtherType: the value is already known to have another concrete type.
func (s *State) knownOtherType(x *V, t types.Type) bool {
	for f, b := range s.facts {
		if b && f.Op == OApp && strings.HasPrefix(f.S, "istype:") && f.A[0] == x && f.S != "istype:"+typeKey(t) {
			if i := s.e.ifaceType[f.S]; !i {
				return true
			}
		}
	}
	return false
}
