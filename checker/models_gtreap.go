package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gtreap: a treap is a persistent tree.  A tree value is an object with the
// tree it was derived from (attribute base) and the operations applied since
// (its elements).  The store's mutable tree pointer changes whenever the lock
// is taken; storing a tree under the lock commits it when the lock is released.
// A goroutine is explored where it is started, and what it sends is what the
// other side may receive.

const (
	treapPkg    = "github.com/steveyen/gtreap"
	treapRegion = "store:gtreap"
)

type access struct {
	written bool
	locks   *V
	pos     token.Pos
	where   string
	n       int
}

func (e *Engine) isTreapPtr(t types.Type) bool {
	return typeKey(t) == "*"+treapPkg+".Treap"
}

// treapFields lists the paths of tree pointers inside a type.
func (e *Engine) treapFields(t types.Type, path []*V, depth int, f func(path []*V)) {
	st := structOf(t)
	if st == nil || depth > 3 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		p := append(append([]*V(nil), path...), Fld(i))
		if e.isTreapPtr(st.Field(i).Type()) {
			f(p)
		} else if n, ok := st.Field(i).Type().(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != treapPkg {
			e.treapFields(st.Field(i).Type(), p, depth+1, f)
		}
	}
}

// mutableTreaps finds the struct types whose tree pointer is assigned after
// construction.
func (e *Engine) mutableTreaps() map[string]bool {
	if e.mutTreap != nil {
		return e.mutTreap
	}
	e.mutTreap = map[string]bool{}
	for fn := range e.allRepo {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || !e.isTreapPtr(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				e.mutTreap[typeKey(elemType(fa.X.Type()))] = true
			}
		}
	}
	return e.mutTreap
}

// holds reports whether a type is, or contains, a struct with a mutable tree.
func (e *Engine) mutTreapPaths(t types.Type, f func(path []*V)) {
	m := e.mutableTreaps()
	e.treapFields(t, nil, 0, func(p []*V) {
		if m[typeKey(typeAt(t, p[:len(p)-1]))] {
			f(p)
		}
	})
}

func (e *Engine) newTree(s *State, tag string, base *V) *Obj {
	o := s.newObjAt(s.here()+tag, KArr, nil, "treap", token.NoPos)
	if base == nil {
		base = Ref(o.ID)
	}
	o.Attrs["base"] = base
	if s.ghostOn("snapshot") {
		o.Attrs["late"] = vTrue
	}
	return o
}

// publish marks everything reachable from v as shared.
func (e *Engine) publish(s *State, vs ...*V) { e.markAll(s, "pub", vs) }

func (e *Engine) markAll(s *State, attr string, vs []*V) {
	seen := map[ObjID]bool{}
	var mark func(v *V)
	mark = func(v *V) {
		walk(v, func(x *V) {
			if x.Obj == 0 || seen[x.Obj] || x.Op != OPtr && x.Op != ORef && x.Op != OSlice {
				return
			}
			seen[x.Obj] = true
			o := s.heap[x.Obj]
			if o == nil || o.Region == "ghost" || o.Region == "engine" || o.Region == "treap" {
				return
			}
			if o.Kind == KCell && o.Attrs[attr] == nil {
				s.setAttr(x.Obj, attr, vTrue)
			}
			if o.Val != nil {
				mark(o.Val)
			}
			for _, g := range o.Segs {
				mark(g)
			}
		})
	}
	for _, v := range vs {
		mark(v)
	}
}

// refresh replaces the shared trees: other operations may have run.
func (e *Engine) refresh(s *State) {
	var ids []int
	for id, o := range s.heap {
		if o.Kind == KCell && o.Attrs["pub"] != nil && o.Val != nil {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := ObjID(i)
		t := s.obj(id).T
		if t == nil {
			continue
		}
		e.mutTreapPaths(t, func(p []*V) {
			o := s.mut(id)
			r := e.newTree(s, "root", nil)
			o.Val = s.update(o.Val, p, o.T, Ptr(r.ID))
			o.Attrs["root"+listStr(p)] = Ref(r.ID)
		})
	}
}

func lockObj(k string, s *State) *V { return lockPtrs[k] }

var lockPtrs = map[string]*V{}

func pathName(t types.Type, path []*V) string {
	var b strings.Builder
	for _, p := range path {
		if p.Op == OFld {
			if st := structOf(t); st != nil {
				f := st.Field(int(p.N))
				b.WriteString("." + f.Name())
				t = f.Type()
				continue
			}
		}
		return b.String() + ".[]"
	}
	return b.String()
}

// note an access to shared memory, with the locks held.
func (e *Engine) access(s *State, p *V, write bool, pos token.Pos) {
	if p.Op != OPtr || len(p.A) == 0 {
		return
	}
	o := s.heap[p.Obj]
	if o == nil || o.Kind != KCell || o.Attrs["pub"] == nil || o.T == nil {
		return
	}
	n, ok := o.T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/store/gtreap") {
		return
	}
	loc := typeKey(o.T) + pathName(o.T, p.A)
	var ls []*V
	var ks []string
	for k := range s.locks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if write && s.locks[k] < 0 {
			continue
		}
		lp := lockPtrs[k]
		lo := s.heap[lp.Obj]
		if lp.Obj == p.Obj {
			ls = append(ls, Float("its own "+pathName(o.T, lp.A)))
		} else if lo != nil && lo.T != nil {
			ls = append(ls, Float(typeKey(lo.T)+pathName(lo.T, lp.A)))
		}
	}
	t := Tuple(ls...)
	a := e.accesses[loc]
	if a == nil {
		a = &access{locks: t, pos: pos, where: e.siteKey(s)}
		e.accesses[loc] = a
	} else if x := intersect(a.locks, t); x != a.locks {
		a.locks = x
		a.pos, a.where = pos, e.siteKey(s)
	}
	e.checked("C18", "access:"+loc)
	a.written = a.written || write
	a.n++
}

func (e *Engine) gtreapModels() {
	tr := "(*" + treapPkg + ".Treap)."
	e.chans = chanRules{}
	e.onLoad = func(s *State, p *V, pos token.Pos) { e.access(s, p, false, pos) }
	e.onStore = func(s *State, o *Obj, p *V) {
		e.access(s, p, true, e.pos(s))
		if strings.HasPrefix(o.Region, "store:") && s.ghostOn("backend") {
			e.violate("C08", "inplace:"+e.siteKey(s), "memory that belongs to the stored data is modified in place", s, e.pos(s))
		}
	}
	e.onStored = func(s *State, p, x *V) {
		o := s.heap[p.Obj]
		if o == nil || o.Attrs["pub"] == nil || o.Kind != KCell || o.T == nil {
			return
		}
		// what is stored in shared memory is shared
		e.publish(s, x)
		e.mutTreapPaths(o.T, func(path []*V) {
			if listStr(path) != listStr(p.A) {
				return
			}
			held := false
			for _, n := range s.locks {
				held = held || n == 1
			}
			s.ghost["pending"] = Tuple(x, s.attr(p.Obj, "root"+listStr(path)))
			if !held {
				e.treapCommit(s)
			}
		})
	}
	e.model(treapPkg+".NewTreap", func(c *Call) {
		s := c.s
		fn := c.args[0]
		it := e.itemType(fn)
		finish := func(s *State) {
			o := e.newTree(s, "new", App("emptytree"))
			s.assign(Ptr(o.ID))
			c.out = append(c.out, s)
		}
		if it == nil {
			e.unknown["order of a treap"] = true
			finish(s)
			return
		}
		mk := func(n string) *V {
			o := s.newObjAt(s.here()+n, KCell, elemType(it), "fresh", 0)
			o.Val = s.expand(s.sym("item"+n, elemType(it)), elemType(it))
			return Iface(it, Ptr(o.ID))
		}
		a, b := mk("a"), mk("b")
		va, vb := s.obj(a.A[0].Obj).Val, s.obj(b.A[0].Obj).Val
		s.top().args = []*V{a, b}
		outs := e.callback(s, fn, []*V{a, b}, "cmp", func(e *Engine, s *State, res []*V) []*State {
			ok := false
			st := structOf(elemType(it))
			for i := 0; i < st.NumFields(); i++ {
				if !isByteSlice(st.Field(i).Type()) {
					continue
				}
				if s.rw(res[0]) == s.cmp(s.rw(s.content(va.A[i])), s.rw(s.content(vb.A[i]))) {
					ok = true
					e.treapKey = i
				}
			}
			e.require("C15", "order:gtreap", ok, "the tree does not order its entries by the bytes of their key", s, e.pos(s))
			c.out = nil
			finish(s)
			return c.out
		})
		c.out = outs
	})
	key := func(s *State, item *V) (k *V, o *Obj) {
		if item.Op != OIface || item.A[0].Op != OPtr {
			panic("unknown treap item")
		}
		o = s.obj(item.A[0].Obj)
		v := s.expand(s.project(o.Val, item.A[0].A, o.T), elemType(item.T))
		return s.rw(s.content(v.A[e.treapKey])), o
	}
	value := func(s *State, item *V) *V {
		o := s.obj(item.A[0].Obj)
		st := structOf(elemType(item.T))
		v := s.expand(o.Val, elemType(item.T))
		for i := 0; i < st.NumFields(); i++ {
			if i != e.treapKey && isByteSlice(st.Field(i).Type()) {
				return v.A[i]
			}
		}
		return vEmptyStr
	}
	newItem := func(s *State, t types.Type, k, content *V, tag string) *V {
		o := s.newObjAt(s.here()+tag, KCell, elemType(t), treapRegion, 0)
		v := zero(elemType(t))
		fs := append([]*V(nil), v.A...)
		st := structOf(elemType(t))
		fs[e.treapKey] = s.memOf(k, treapRegion, tag+"k")
		for i := range fs {
			if i != e.treapKey && isByteSlice(st.Field(i).Type()) {
				fs[i] = s.memOf(content, treapRegion, tag+"v")
			}
		}
		o.Val = Struct(elemType(t), fs)
		return Iface(t, Ptr(o.ID))
	}
	tree := func(c *Call) *Obj {
		p := c.args[0]
		if p.Op != OPtr || c.s.obj(p.Obj).Attrs["base"] == nil {
			panic("unknown tree")
		}
		return c.s.obj(p.Obj)
	}
	e.model(tr+"Get", func(c *Call) {
		s := c.s
		o := tree(c)
		k, _ := key(s, c.args[1])
		it := c.args[1].T
		live := s
		segs := o.Segs
		for i := len(segs) - 1; i >= 0 && live != nil; i-- {
			g := segs[i]
			if g.S != "el" {
				continue
			}
			eq := streq(g.A[1].A[1], k)
			t := live.truth(eq)
			if t == 0 {
				continue
			}
			h := live
			if t == -1 {
				h = live.clone()
				if !live.assume(eq, false) {
					live = nil
				}
			} else {
				live = nil
			}
			if h.assume(eq, true) {
				if g.A[1].A[0].S == "del" {
					c.ret(h, vNil)
				} else {
					c.ret(h, newItem(h, it, k, g.A[1].A[2], "own"))
				}
			}
		}
		if live == nil {
			return
		}
		c2 := *c
		c2.s = live
		c2.out = nil
		c2.engineRead(Ref(o.ID), k, false,
			func(t *State) { c2.ret(t, vNil) },
			func(t *State, content *V) { c2.ret(t, newItem(t, it, k, content, "item")) })
		c.out = append(c.out, c2.out...)
	})
	derive := func(c *Call, kind string) {
		s := c.s
		o := tree(c)
		k, io := key(s, c.args[1])
		v := vNil
		if kind == "put" {
			val := value(s, c.args[1])
			v = s.rw(s.content(val))
			for _, m := range []*V{val, s.expand(io.Val, io.T).A[e.treapKey]} {
				if m.Op == OSlice && m.Obj != 0 {
					e.require("C05", "retain:"+e.siteKey(s), !strings.HasPrefix(s.regionOfSlice(m), "client:"), "the tree keeps a buffer of the caller", s, c.pos())
				}
			}
		}
		n := s.newObjAt(s.here()+"up", KArr, nil, "treap", token.NoPos)
		n.Segs = append([]*V(nil), o.Segs...)
		n.Attrs["base"] = o.Attrs["base"]
		if x := o.Attrs["late"]; x != nil {
			n.Attrs["late"] = x
		}
		if v.Op == ONil {
			c.engineWrite(n.ID, kind, k, nil)
		} else {
			c.engineWrite(n.ID, kind, k, v)
		}
		c.ret(s, Ptr(n.ID))
	}
	e.model(tr+"Upsert", func(c *Call) { derive(c, "put") })
	e.model(tr+"Delete", func(c *Call) { derive(c, "del") })
	e.model(tr+"Min "+tr+"Max", func(c *Call) {
		s := c.s
		o := tree(c)
		e.snapshotRead(c, o.ID, "scan")
		t := s.clone()
		c.ret(t, vNil)
		it := e.anyItem
		if it == nil {
			c.ret(s, s.sym("item", nil))
			return
		}
		k := s.opaqueBytes("entry", 0)
		c.ret(s, newItem(s, it, k, valueOf(k), "min"))
	})
	// the cursor of the stub that stands for VisitAscend
	e.model("client.treapCursor", func(c *Call) {
		s := c.s
		o := tree(c)
		e.snapshotRead(c, o.ID, "scan")
		k, _ := key(s, c.args[1])
		cu := s.newObj(KCell, types.Typ[types.Int], "engine")
		cu.Val = Int(0)
		cu.Attrs["cur"] = vNil
		cu.Attrs["lo"] = k
		cu.Attrs["of"] = Ref(o.ID)
		cu.Attrs["item"] = c.args[1]
		c.ret(s, Ptr(cu.ID))
	})
	e.model("client.treapNext", func(c *Call) {
		s := c.s
		id := c.args[0].Obj
		prev := s.attr(id, "cur")
		if prev.Op == ONil {
			prev = nil
		}
		e.cursorMove(c, s, id, nil, prev, func(t *State) { c.ret(t, vFalse) }, func(t *State, k *V) { c.ret(t, vTrue) })
	})
	e.model("client.treapItem", func(c *Call) {
		s := c.s
		id := c.args[0].Obj
		k := s.attr(id, "cur")
		v := newItem(s, s.attr(id, "item").T, k, valueOf(k), "visit")
		s.setAttr(v.A[0].Obj, "visited", Tuple(s.attr(id, "of"), s.attr(id, "lo")))
		c.ret(s, v)
	})
	e.model("client.common", func(c *Call) {
		e.markAll(c.s, "common", c.args)
		c.s.ghost["opened"] = vTrue
		c.ret(c.s)
	})
	e.model("client.publish", func(c *Call) { e.publish(c.s, c.args...); e.refresh(c.s); c.ret(c.s) })
	e.model("client.endIter", func(c *Call) {
		s := c.s
		ok := true
		for _, o := range s.heap {
			if o.Attrs["guard"] != nil && !s.attrIs(o.ID, "closed", "yes") {
				ok = false
			}
		}
		e.require("C17", "producer:"+s.ghostStr("backend"), ok, "a background producer of the iterator is still waiting after the iterator was closed or repositioned", s, c.pos())
		c.ret(s)
	})
	e.goModel = func(s *State, fn *V, args []*V, ins *ssa.Go) []*State {
		e.publish(s, append([]*V{fn}, args...)...)
		var ls []*V
		var ks []string
		for k := range s.locks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ls = append(ls, Tuple(Float(k), Int(int64(s.locks[k]))))
		}
		s.ghost["golocks"] = Tuple(ls...)
		s.ghost["thread"] = vTrue
		s.locks = map[string]int{}
		return e.callback(s, fn, args, "go", func(e *Engine, s *State, res []*V) []*State {
			e.require("C17", "golocks:"+e.siteKey(s), len(s.locks) == 0, "a background producer ends while it holds a lock", s, ins.Pos())
			s.locks = map[string]int{}
			for _, l := range s.ghost["golocks"].A {
				s.locks[l.A[0].S] = int(l.A[1].N)
			}
			delete(s.ghost, "golocks")
			delete(s.ghost, "thread")
			if s.ghostOn("cancelled") {
				return nil
			}
			s.top().pc++
			return []*State{s}
		})
	}
}

// treapCommit makes the tree stored under the lock the current one.
func (e *Engine) treapCommit(s *State) {
	pd := s.ghost["pending"]
	if pd == nil {
		return
	}
	delete(s.ghost, "pending")
	x, root := pd.A[0], pd.A[1]
	if x.Op != OPtr {
		e.violate("C06", "lost:"+e.siteKey(s), "the stored tree is lost", s, e.pos(s))
		return
	}
	o := s.obj(x.Obj)
	if len(o.Segs) == 0 && o.Attrs["base"] == root {
		return
	}
	if s.ghostOn("batch") {
		e.require("C13", "base:gtreap", root != nil && o.Attrs["base"] == root, "the tree that becomes the current one was not derived from the current tree: what another batch stored in between is lost", s, e.pos(s))
	}
	l := s.newObjAt(s.here()+"committed", KArr, nil, "ghost", 0)
	l.Segs = o.Segs
	s.committed(l.ID)
}

// itemType is the type the comparison function expects.
func (e *Engine) itemType(fn *V) types.Type {
	if fn.Op != OClo {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var find func(f *ssa.Function) types.Type
	find = func(f *ssa.Function) types.Type {
		if seen[f] {
			return nil
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ta, ok := ins.(*ssa.TypeAssert); ok {
					if p, ok := under(ta.AssertedType).(*types.Pointer); ok && structOf(p.Elem()) != nil {
						return ta.AssertedType
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
						if t := find(g); t != nil {
							return t
						}
					}
				}
			}
		}
		return nil
	}
	e.anyItem = find(fn.Fn)
	return e.anyItem
}

// ---- channels ----

type chanRules struct{}

func inGo(s *State) bool { return s.ghostOn("thread") }

func (chanRules) send(e *Engine, s *State, ch, x *V, pos token.Pos) {
	if ch.Op == ONil {
		e.violate("C17", "nilsend:"+e.siteKey(s), "send on a nil channel blocks for ever", s, pos)
		return
	}
	if ch.Op != ORef {
		return
	}
	if s.attrIs(ch.Obj, "closed", "yes") {
		e.violate("C17", "sendclosed:"+e.siteKey(s), "send on a closed channel", s, pos)
	}
	if inGo(s) {
		e.violate("C17", "leak:"+e.siteKey(s), "the background producer sends without also waiting for cancellation: it stays blocked for ever when the iterator is closed or repositioned", s, pos)
	}
	sent(s, ch, x)
}

func sent(s *State, ch, x *V) {
	f := Tuple(vNil)
	if x.Op == OIface {
		x = x.A[0]
	}
	if x.Op == OPtr {
		if v := s.attr(x.Obj, "visited"); v != nil {
			f = v
		}
	}
	if old := s.attr(ch.Obj, "feeds"); old != nil && old != f {
		f = Tuple(vNil)
	}
	s.setAttr(ch.Obj, "feeds", f)
}

func (chanRules) close(e *Engine, s *State, ch *V, pos token.Pos) {
	if ch.Op == ORef && s.attr(ch.Obj, "guard") != nil {
		delete(s.mut(ch.Obj).Attrs, "pinned")
	}
}

func (chanRules) selected(e *Engine, s *State, ins *ssa.Select, i int, chans, sends []*V) {
	if inGo(s) && ins.Blocking {
		// a wait for cancellation
		var guard *V
		for j, c := range chans {
			if sends[j] == nil && c.Op != ONil {
				guard = c
			}
		}
		hasSend := false
		for j := range chans {
			hasSend = hasSend || sends[j] != nil
		}
		if hasSend {
			if guard == nil {
				e.violate("C17", "leak:"+e.siteKey(s), "the background producer sends without also waiting for cancellation: it stays blocked for ever when the iterator is closed or repositioned", s, ins.Pos())
			} else if guard.Op == ORef {
				s.setAttr(guard.Obj, "guard", vTrue)
				var open []int
				for id, o := range s.heap {
					if id != guard.Obj && o.Attrs["guard"] != nil && o.Attrs["pinned"] != nil {
						open = append(open, int(id))
					}
				}
				if len(open) > 1 {
					e.violate("C17", "producer:"+s.ghostStr("backend"), "earlier producers have not been cancelled when an iterator is repositioned", s, ins.Pos())
					for _, id := range open {
						delete(s.mut(ObjID(id)).Attrs, "pinned")
					}
				}
				s.setAttr(guard.Obj, "pinned", vTrue)
			}
		}
		if sends[i] == nil {
			s.ghost["cancelled"] = vTrue
		}
	}
	if sends[i] != nil && chans[i].Op == ORef {
		if s.attrIs(chans[i].Obj, "closed", "yes") {
			e.violate("C17", "sendclosed:"+e.siteKey(s), "send on a closed channel", s, ins.Pos())
		}
		sent(s, chans[i], sends[i])
	}
}

func (chanRules) recv(e *Engine, s *State, ch *V, commaOk bool, t types.Type, pos token.Pos) []choice {
	et := under(t).(*types.Chan).Elem()
	blocks := func(s *State, why string) {
		e.violate("C17", "blocks:"+e.siteKey(s), why, s, pos)
		if s.ghostStr("panics") == "C16" {
			e.violate("C16", "blocks:"+e.siteKey(s), why, s, pos)
		}
	}
	res := func(s *State, v *V, ok bool) choice {
		if commaOk {
			return choice{s, Tuple(v, Bool(ok))}
		}
		return choice{s, v}
	}
	if ch.Op == ONil {
		blocks(s, "receive from a nil channel blocks for ever")
		return []choice{}
	}
	if ch.Op != ORef || inGo(s) {
		return nil
	}
	e.checked("C17", "recv:"+e.siteKey(s))
	var out []choice
	closed := s.attrIs(ch.Obj, "closed", "yes")
	feeds := s.attr(ch.Obj, "feeds")
	done := s.attr(ch.Obj, "drained") != nil
	if closed {
		t := s.clone()
		t.setAttr(ch.Obj, "drained", vTrue)
		t.note(pos, "the channel is closed")
		out = append(out, res(t, zero(et), false))
	} else {
		blocks(s, "the receive blocks for ever once the producer has ended: the channel is never closed")
	}
	if feeds == nil || done {
		return out
	}
	if len(feeds.A) < 2 {
		v := s.reify(s.sym("received", et), et)
		return append(out, res(s, v, true))
	}
	if s.attr(ch.Obj, "lo") == nil {
		s.setAttr(ch.Obj, "lo", feeds.A[1])
	}
	prev := s.attr(ch.Obj, "cur")
	if prev != nil && prev.Op == ONil {
		prev = nil
	}
	c := &Call{e: e, s: s}
	e.cursorMove(c, s, ch.Obj, nil, prev, func(t *State) {}, func(t *State, k *V) {
		it := e.anyItem
		o := t.newObjAt(t.here()+"recv", KCell, elemType(it), treapRegion, 0)
		v := zero(elemType(it))
		fs := append([]*V(nil), v.A...)
		st := structOf(elemType(it))
		fs[e.treapKey] = t.memOf(k, treapRegion, "rk")
		for i := range fs {
			if i != e.treapKey && isByteSlice(st.Field(i).Type()) {
				fs[i] = t.memOf(valueOf(k), treapRegion, "rv")
			}
		}
		o.Val = Struct(elemType(it), fs)
		v = Ptr(o.ID)
		if types.IsInterface(et) {
			v = Iface(it, v)
		}
		out = append(out, res(t, v, true))
	})
	return out
}
