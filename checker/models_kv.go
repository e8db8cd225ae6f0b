package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

// What a storage engine holds, and what an operation may do with it, is
// described with the uninterpreted functions present(key) and stored(key).
// Every engine model uses the helpers of this file, so the rules about
// reads, writes and commits are stated once.

var byteSliceT = types.NewSlice(types.Typ[types.Byte])

func presentTerm(key *V) *V { return App("present", key) }
func storedTerm(key *V) *V  { return App("stored", key) }
func bytesOf(x *V) *V       { return StrV([]*V{Seg("op", App("len", x), x, Int(0))}) }

// engineRead is a point read of the engine.  found gets the value.
func (c *Call) engineRead(src, key *V, live bool, absent func(t *State), found func(t *State, content *V)) {
	s := c.s
	e := c.e
	if s.ghostOn("snapshot") {
		ok := !live && (src.Obj == 0 || s.attr(src.Obj, "late") == nil)
		e.require("C08", "read:"+e.siteKey(s), ok, "a read through an open reader consults the live store instead of the reader's snapshot", s, c.pos())
	}
	e.batchRead(c, src, live)
	p := presentTerm(key)
	t := s.clone()
	if t.assume(p, false) {
		t.note(c.pos(), "the key is absent")
		absent(t)
	}
	if s.assume(p, true) {
		s.note(c.pos(), "the key is present")
		found(s, bytesOf(storedTerm(key)))
	}
}

// engineKey is the key an engine iterator moves to: at least lower, after prev.
func engineKey(s *State, lower, prev *V, minLen int64) *V {
	k := s.opaqueBytes("entry", minLen)
	if lower != nil {
		after(s, k, lower, 0)
	}
	if prev != nil {
		after(s, k, prev, 1)
	}
	return k
}

// after adds what follows from k > prev (strict is 1) or k >= prev (0).
func after(s *State, k, prev *V, strict int64) {
	prev = s.rw(prev)
	s.assume(GE(AddN(s.cmp(k, prev), -strict)), true)
	var add []*V
	for _, l := range s.lins {
		n, as, cs := linParts(l)
		for i, a := range as {
			if len(as) != 1 || a.Op != OApp || a.S != "cmp" {
				continue
			}
			// n + c*cmp(x,y) >= 0 : prev >= y (c>0, x == prev) or prev >= x (c<0, y == prev)
			if n <= 0 && n >= -1 && (cs[i] == 1 && a.A[0] == prev || cs[i] == -1 && a.A[1] == prev) {
				o := a.A[1]
				if cs[i] == -1 {
					o = a.A[0]
				}
				if o != k {
					m := -strict
					if n < 0 {
						m = -1
					}
					add = append(add, GE(AddN(s.cmp(k, o), m)))
				}
			}
		}
	}
	for f, b := range s.facts {
		if b && f.Op == OApp && f.S == "hasprefix" && f.A[0] == prev && f.A[1] != k {
			add = append(add, GE(AddN(s.cmp(k, f.A[1]), -strict)))
		}
	}
	for _, a := range add {
		s.assume(a, true)
	}
	for f, b := range s.facts {
		if !b && f.Op == OApp && f.S == "hasprefix" && f.A[0] == prev && s.proveGE(s.cmp(prev, f.A[1])) {
			s.assume(App("hasprefix", k, f.A[1]), false)
		}
	}
}

// heldLocks names the locks the operation holds exclusively.
func (s *State) heldLocks() []*V {
	var ks []string
	for k, n := range s.locks {
		if n == 1 && s.storeLock(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []*V
	for _, k := range ks {
		out = append(out, Float(k))
	}
	return out
}

// storeLock: every writer of the store uses this lock.
func (s *State) storeLock(k string) bool {
	p := lockPtrs[k]
	if p == nil || p.Obj == 0 {
		return true
	}
	o := s.heap[p.Obj]
	return o == nil || strings.HasPrefix(o.Region, "global:") || s.ghost["opened"] == nil || o.Attrs["pub"] != nil || o.Attrs["common"] != nil
}

func intersect(a, b *V) *V {
	var out []*V
	for _, x := range a.A {
		for _, y := range b.A {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return Tuple(out...)
}

// batchRead notes what isolates a read of a batch from other batches: its
// transaction, or the locks held from the read on.
func (e *Engine) batchRead(c *Call, src *V, live bool) {
	s := c.s
	if !s.ghostOn("batch") {
		return
	}
	locks := Tuple(s.heldLocks()...)
	if !live && src.Op == ORef && src.Obj != 0 {
		if s.attrStr(src.Obj, "res") == "tx" {
			if g := s.ghost["rmwtx"]; g == nil || g == src {
				s.ghost["rmwtx"] = src
				return
			}
			locks = Tuple()
		} else if x := s.attr(src.Obj, "xlocks"); x != nil {
			locks = intersect(locks, x)
		} else {
			locks = Tuple()
		}
	}
	if g := s.ghost["rmw"]; g != nil {
		locks = intersect(locks, g)
	}
	s.ghost["rmw"] = locks
}

// unlocked ends the protection given by a lock.
func (s *State) unlocked(k string) {
	drop := func(v *V) *V {
		var out []*V
		for _, x := range v.A {
			if x.S != k {
				out = append(out, x)
			}
		}
		return Tuple(out...)
	}
	if g := s.ghost["rmw"]; g != nil {
		s.ghost["rmw"] = drop(g)
	}
	for id, o := range s.heap {
		if x := o.Attrs["xlocks"]; x != nil && drop(x) != x {
			s.setAttr(id, "xlocks", drop(x))
		}
	}
}

// isolated checks, where a batch becomes part of the store, that nothing can
// have come between its reads and its writes.
func (e *Engine) isolated(c *Call, tx ObjID) {
	s := c.s
	if !s.ghostOn("batch") {
		return
	}
	backend := s.ghostStr("backend")
	if g := s.ghost["rmwtx"]; g != nil {
		e.require("C13", "tx:"+backend, g.Obj == tx, "a merge is computed from a value read in another transaction than the one that writes it", s, c.pos())
	}
	if tx != 0 {
		if g := s.ghost["rmw"]; g != nil {
			e.require("C13", "tx:"+backend, len(g.A) > 0, "a merge is computed from a value read outside the transaction that writes it, with no lock held across both", s, c.pos())
		}
		return
	}
	if g := s.ghost["rmw"]; g != nil {
		e.require("C13", "lock:"+backend, len(g.A) > 0, "no lock is held from the read of a merged key's stored value to the write of the result: a concurrent batch can come in between", s, c.pos())
		if e.mergeLocks == nil {
			e.mergeLocks = g
		} else {
			e.mergeLocks = intersect(e.mergeLocks, g)
		}
		return
	}
	var ks []string
	for k := range s.locks {
		if s.storeLock(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var held []*V
	for _, k := range ks {
		held = append(held, Float(k))
	}
	if e.plainLocks == nil {
		e.plainLocks = Tuple(held...)
		e.plainPos = c.pos()
	} else if n := intersect(e.plainLocks, Tuple(held...)); n != e.plainLocks {
		e.plainLocks = n
		e.plainPos = c.pos()
	}
}

// share carries over what the checks that compare different paths have seen
// under the clients before.
func (e *Engine) share(p *Engine) {
	if p == nil {
		return
	}
	e.accesses = p.accesses
}

// finish makes the checks that compare different paths.
func (e *Engine) finish() {
	var locs []string
	for l := range e.accesses {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, l := range locs {
		a := e.accesses[l]
		if !a.written {
			continue
		}
		e.require("C18", "lock:"+l, len(a.locks.A) > 0, l+" is shared between goroutines and written, but "+a.where+" does not hold the lock that protects it elsewhere", nil, a.pos)
	}
	if e.mergeLocks != nil && len(e.mergeLocks.A) > 0 && e.plainLocks != nil {
		ok := len(intersect(e.mergeLocks, e.plainLocks).A) > 0
		e.require("C13", "exclude", ok, "a batch without merges is written without holding the lock that isolates merges: it can come between the read and the write of a merge", nil, e.plainPos)
	}
}

func valueOf(key *V) *V {
	return bytesOf(App("valueof", key))
}

// write records one effect of a batch on the engine.
func (c *Call) engineWrite(logID ObjID, kind string, key, val *V) {
	s := c.s
	e := c.e
	if scribbled(key) || val != nil && scribbled(val) {
		e.require("C05", "write:"+e.siteKey(s), false, "the engine is given bytes of a buffer the caller has overwritten since the batch call returned", s, c.pos())
	} else {
		e.checked("C05", "write:"+e.siteKey(s))
	}
	if s.ghostOn("compact") {
		if kind == "del" {
			e.compactDelete(c, key)
		} else {
			e.require("C21", "only:"+s.ghostStr("backend"), false, "a compaction writes an entry", s, c.pos())
		}
		s.logTo(logID, Tuple(Float(kind), vNil, vNil))
		return
	}
	if val == nil {
		val = vNil
	}
	s.logTo(logID, Tuple(Float(kind), key, val))
}

func (s *State) newLog() *Obj {
	o := s.newObj(KArr, nil, "ghost")
	return o
}

// retried: a batch that starts a new write transaction before anything was
// committed starts over; what failed before does not count.
func (s *State) retried() {
	if !s.ghostOn("batch") || s.ghost["commits"] != nil || len(s.openRes("tx")) > 1 {
		return
	}
	switch s.ghostStr("fail") {
	case "put", "del", "commit", "get", "value", "write":
		delete(s.ghost, "fail")
		delete(s.ghost, "rmw")
		delete(s.ghost, "rmwtx")
		s.ghostList("merged").Segs = nil
	}
}

// commitTo ends a write: the log becomes part of the store.
func (s *State) committed(logID ObjID) {
	if s.ghostOn("compact") {
		return
	}
	n := Int(0)
	if v := s.ghost["commits"]; v != nil {
		n = v
	}
	s.ghost["commits"] = AddN(n, 1)
	s.ghost["committed"] = Ref(logID)
}

// ---- the merge operator of the user ----

func (e *Engine) kvModels() {
	mo := "(" + modPath + "/store.MergeOperator)."
	e.model(mo+"FullMerge", func(c *Call) {
		s := c.s
		key, ex := c.str(1), c.args[2]
		site := e.siteKey(s)
		switch s.truth(presentTerm(key)) {
		case 1:
			ok := s.nilness(ex) == 0 && s.rw(s.content(ex)) == s.rw(bytesOf(storedTerm(key)))
			e.require("C12", "existing:"+site, ok, "the merge operator is not given the stored value of the key", s, c.pos())
		case 0:
			e.require("C12", "absent:"+site, s.nilness(ex) == 1, "the merge operator is given a non-nil value for a key that is not stored", s, c.pos())
		default:
			e.require("C12", "existing:"+site, false, "the merge operator runs without the stored value of its key having been read", s, c.pos())
		}
		var ops []*V
		for _, g := range s.items(c.args[3]) {
			if g.S == "el" {
				ops = append(ops, s.content(g.A[1]))
			} else {
				ops = append(ops, g)
			}
		}
		opl := App("operands", ops...)
		if scribbled(opl) {
			e.require("C05", "operand:"+site, false, "the merge operator is given bytes of a buffer the caller has overwritten since the batch call returned", s, c.pos())
		} else {
			e.checked("C05", "operand:"+site)
		}
		if s.ghostOn("batch") {
			s.logTo(s.ghostList("merged").ID, Tuple(key, opl))
			s.ghost["mergeread"] = vTrue
		}
		t := s.clone()
		t.note(c.pos(), "the merge operator reports failure")
		t.failed("merge", nil)
		c.ret(t, nilSlice(), vFalse)
		c.ret(s, s.memOf(bytesOf(App("merged", key)), "operator", "merged"), vTrue)
	})
	e.model(mo+"PartialMerge", func(c *Call) {
		s := c.s
		l, r := c.str(2), c.str(3)
		t := s.clone()
		t.note(c.pos(), "no partial merge")
		c.ret(t, nilSlice(), vFalse)
		x := App("pmerged", c.str(1), l, r)
		c.ret(s, s.memOf(bytesOf(x), "operator", "pmerged"), vTrue)
	})
	e.model(mo+"Name", func(c *Call) { c.ret(c.s, StrConst("operator")) })
	e.model("math/rand.Int math/rand.Int63", func(c *Call) {
		x := c.s.sym("random", types.Typ[types.Int])
		symOf(x).nonneg = true
		c.ret(c.s, x)
	})
}

// ---- client intrinsics for stores ----

func (e *Engine) clientBuf(c *Call, min int64, mayNil bool) {
	s := c.s
	n, _ := strConst(c.args[0])
	x := s.sym("client:"+n, byteSliceT)
	symOf(x).region = "client:" + n
	if min > 0 {
		s.assume(GE(AddN(App("len", x), -min)), true)
	}
	if !mayNil {
		s.assume(App("isnil", x), false)
	}
	c.ret(s, s.reify(x, byteSliceT))
}

func clientName(name string) string {
	if strings.HasPrefix(name, "verifclient/") {
		if i := strings.LastIndex(name, "."); i >= 0 {
			return "client." + name[i+1:]
		}
	}
	return name
}

func (e *Engine) clientModels() {
	e.model("client.any", func(c *Call) { c.ret(c.s, c.s.sym("any", types.Typ[types.Bool])) })
	e.model("client.stop", func(c *Call) {})
	e.model("client.buf", func(c *Call) { e.clientBuf(c, 0, true) })
	e.model("client.nbuf", func(c *Call) { e.clientBuf(c, 1, false) })
	e.model("client.str", func(c *Call) {
		n, _ := strConst(c.args[0])
		x := c.s.sym("client:"+n, types.Typ[types.String])
		c.ret(c.s, c.s.reify(x, types.Typ[types.String]))
	})
	e.model("client.scribble", func(c *Call) {
		s := c.s
		b := c.args[0]
		if b.Op == OSlice && b.Obj != 0 {
			o := s.mut(b.Obj)
			x := s.sym("scribbled", nil)
			o.Segs = []*V{Seg("op", o.Len(), x, Int(0))}
			o.Attrs["dirty"] = vTrue
		}
		c.ret(s)
	})
	e.model("client.panics", func(c *Call) { c.s.ghost["panics"] = Float(mustStr(c.args[0])); c.ret(c.s) })
	e.model("client.mergeOp", func(c *Call) {
		x := c.s.sym("operator", c.resType(0))
		symOf(x).nonnil = true
		c.ret(c.s, x)
	})
	e.model("client.did", func(c *Call) {
		s := c.s
		kind := mustStr(c.args[0])
		v := vNil
		if kind == "put" {
			v = c.str(2)
		}
		s.logTo(s.ghostList("want").ID, Tuple(Float(kind), c.str(1), v))
		c.ret(s)
	})
	e.model("client.didMerge", func(c *Call) {
		s := c.s
		l := s.ghostList("wantmerge")
		k, v := c.str(0), c.str(1)
		for i, g := range l.Segs {
			if g.S == "el" && g.A[1].A[0] == k {
				l.Segs = append([]*V(nil), l.Segs...)
				ops := g.A[1].A[1]
				l.Segs[i] = Seg("el", Int(1), Tuple(k, App("operands", append(append([]*V(nil), ops.A...), v)...)))
				c.ret(s)
				return
			}
		}
		s.logTo(l.ID, Tuple(k, App("operands", v)))
		c.ret(s)
	})
	e.model("client.distinct", func(c *Call) {
		if c.s.assume(App("streq", c.str(0), c.str(1)), false) && c.s.assume(App("streq", c.str(1), c.str(0)), false) {
			c.ret(c.s)
		}
	})
	e.model("client.forget", func(c *Call) {
		s := c.s
		s.ghostList("want").Segs = nil
		s.ghostList("wantmerge").Segs = nil
		s.ghost["reset"] = vTrue
		c.ret(s)
	})
	e.model("client.mustFail", func(c *Call) { c.s.failed(mustStr(c.args[0]), nil); c.ret(c.s) })
	e.model("client.check", func(c *Call) {
		s := c.s
		prop, what, msg := mustStr(c.args[0]), mustStr(c.args[1]), mustStr(c.args[3])
		e.require(prop, what+":"+s.ghostStr("backend"), s.truth(c.args[2]) == 1, msg, s, c.pos())
		c.ret(s)
	})
	e.model("client.beginBatch", func(c *Call) {
		s := c.s
		s.ghost["batch"] = vTrue
		delete(s.ghost, "fail")
		delete(s.ghost, "commits")
		delete(s.ghost, "committed")
		delete(s.ghost, "rmw")
		delete(s.ghost, "rmwtx")
		s.ghostList("want")
		s.ghostList("merged")
		c.ret(s)
	})
	e.model("client.endBatch", func(c *Call) { e.endBatch(c) })
	e.model("client.snapshot", func(c *Call) {
		c.s.ghost["snapshot"] = vTrue
		e.refresh(c.s)
		c.ret(c.s)
	})
	e.model("client.prefixBound", func(c *Call) {
		c.s.ghost["bound"] = Tuple(Float("prefix"), c.str(0))
		c.ret(c.s)
	})
	e.model("client.rangeBound", func(c *Call) {
		c.s.ghost["bound"] = Tuple(Float("range"), c.str(0), c.str(1), isNilTermS(c.args[1]))
		c.ret(c.s)
	})
	e.model("client.coarse", func(c *Call) { e.coarse = true; c.ret(c.s) })
	e.model("client.entry", func(c *Call) { e.entry(c) })
	e.model("client.beginScan", func(c *Call) { delete(c.s.ghost, "fail"); c.ret(c.s) })
	e.model("client.endScan", func(c *Call) {
		s := c.s
		if s.ghostOn("fail") {
			e.require("C02", "scan:"+s.ghostStr("backend"), s.nilness(c.args[0]) == 0, "closing an iterator whose scan failed in the engine ("+s.ghostStr("fail")+") reports no error", s, c.pos())
		}
		c.ret(s)
	})
	e.model("client.allClosed", func(c *Call) {
		s := c.s
		open := s.openRes("tx", "rtx", "snap", "iter")
		what := ""
		if len(open) > 0 {
			what = open[0].Attrs["res"].S
		}
		e.require("C01", "released:"+s.ghostStr("backend"), len(open) == 0, "an engine handle ("+what+") stays open after the iterator and the reader have been closed", s, c.pos())
		c.ret(s)
	})
	e.model("client.bufs", func(c *Call) {
		s := c.s
		n, _ := strConst(c.args[0])
		x := s.sym("client:"+n, c.resType(0))
		symOf(x).region = "client:" + n
		s.assume(App("isnil", x), false)
		c.ret(s, s.reify(x, c.resType(0)))
	})
	e.model("client.beginMulti", func(c *Call) { c.s.ghost["multi"] = vTrue; delete(c.s.ghost, "fail"); c.ret(c.s) })
	e.summary = func(c *Call, fn *ssa.Function) bool {
		if c.s.ghostOn("multi") && fn.Name() == "Get" && fn.Signature.Recv() != nil && strings.HasPrefix(fullName(fn), "(*"+modPath+"/store/") && len(c.args) == 2 {
			e.getval(c)
			return true
		}
		return false
	}
	e.model("client.endMulti", func(c *Call) { e.endMulti(c) })
	e.model("client.reader", func(c *Call) {
		x := c.s.sym("reader", c.resType(0))
		symOf(x).nonnil = true
		c.ret(c.s, x)
	})
	e.model("("+modPath+"/store.KVReader).Get", func(c *Call) {
		if c.args[0].Op != OSym || symOf(c.args[0]).origin != "reader" {
			e.unmodelled(c)
			return
		}
		e.getval(c)
	})
	e.model("client.beginGet", func(c *Call) { delete(c.s.ghost, "fail"); c.ret(c.s) })
	e.model("client.endGet", func(c *Call) { e.endGet(c, c.args[0], c.args[1], c.args[2], c.args[3]); c.ret(c.s) })
}

func mustStr(v *V) string {
	s, ok := strConst(v)
	if !ok {
		panic("an intrinsic needs a constant")
	}
	return s
}

// forkNil continues f in the cases where err is nil and where it is not.
func (s *State) forkNil(err *V, f func(t *State, isnil bool)) {
	switch s.nilness(err) {
	case 1:
		f(s, true)
	case 0:
		f(s, false)
	default:
		t := s.clone()
		if t.assume(isNilTermS(err), true) {
			f(t, true)
		}
		if s.assume(isNilTermS(err), false) {
			f(s, false)
		}
	}
}

// endBatch checks what executing a batch did: C06, C07, C09, C12.
func (e *Engine) endBatch(c *Call) {
	err := c.args[0]
	pos := c.pos()
	c.s.forkNil(err, func(s *State, isnil bool) {
		backend := s.ghostStr("backend")
		commits := int64(0)
		if v := s.ghost["commits"]; v != nil {
			commits, _ = isInt(v)
		}
		nothing := len(s.ghostList("want").Segs) == 0 && (s.ghost["Lwantmerge"] == nil || len(s.obj(s.ghost["Lwantmerge"].Obj).Segs) == 0)
		if open := s.openRes("tx"); len(open) > 0 {
			e.require("C06", "open:"+backend, false, "the transaction started for the batch is neither committed nor rolled back", s, open[0].Site)
		} else {
			e.checked("C06", "open:"+backend)
		}
		e.checked("C08", "batch:"+backend)
		if !isnil {
			e.require("C06", "err:"+backend, commits == 0 || len(s.obj(s.ghost["committed"].Obj).Segs) == 0, "operations of a batch that reports an error have been committed", s, pos)
		} else {
			e.require("C06", "fail:"+backend, !s.ghostOn("fail"), "a batch reports success although something failed: "+s.ghostStr("fail"), s, pos)
			e.require("C07", "commit:"+backend, commits >= 1 || nothing, "a batch reports success but the engine never committed it", s, pos)
			e.require("C06", "once:"+backend, commits <= 1, "a batch is committed in several steps", s, pos)
			if commits == 1 && !s.ghostOn("fail") {
				e.compareLog(s, backend, pos)
			}
		}
		delete(s.ghost, "batch")
		c.ret(s)
	})
}

// compareLog checks that the engine was told to do what the batch says.
func (e *Engine) compareLog(s *State, backend string, pos token.Pos) {
	want := s.ghostList("want").Segs
	merged := s.ghostList("merged").Segs
	wm := s.ghost["Lwantmerge"]
	var wantM []*V
	if wm != nil {
		wantM = s.obj(wm.Obj).Segs
	}
	got := s.obj(s.ghost["committed"].Obj).Segs
	// merges first, their results under their keys
	var ms []*V
	i := 0
	for i < len(got) && got[i].S == "el" && got[i].A[1].A[0].S == "put" && isMergeResult(got[i].A[1].A[2]) {
		ms = append(ms, got[i])
		i++
	}
	rest := got[i:]
	if wm != nil && len(wantM) > 0 || len(merged) > 0 || len(ms) > 0 {
		// every key the client merged, with all its operands
		okm := len(ms) == len(wantM) && len(merged) == len(wantM)
		if okm {
			for _, w := range wantM {
				found, stored := false, false
				for _, m := range merged {
					if m.S == "el" && m.A[1].A[0] == w.A[1].A[0] && sameList(s, flatOperands(w.A[1].A[1]), flatOperands(m.A[1].A[1])) {
						found = true
					}
				}
				for _, m := range ms {
					if m.A[1].A[1] == w.A[1].A[0] && m.A[1].A[2] == bytesOf(App("merged", w.A[1].A[0])) {
						stored = true
					}
				}
				if !found || !stored {
					okm = false
				}
			}
		}
		prop := "C12"
		if s.ghostOn("reset") {
			prop = "C14"
		}
		e.require(prop, "merges:"+backend, okm, "the merges of a batch are not applied as recorded, each with all its operands and before the sets and deletes"+e.dbg("want %v merged %v got %v", wantM, merged, got), s, pos)
	}
	prop := "C09"
	if s.ghostOn("reset") {
		prop = "C14"
	}
	e.require(prop, "ops:"+backend, sameOps(s, want, rest), "the engine is not given exactly the batch's operations"+e.dbg("want %v got %v", want, rest), s, pos)
}

// flatOperands lists the operands a list of (partially merged) operands stands for.
func flatOperands(ops *V) []*V {
	var out []*V
	var flat func(x *V)
	flat = func(x *V) {
		if x.Op == OStr && len(x.A) == 1 && x.A[0].S == "op" {
			if p := x.A[0].A[1]; p.Op == OApp && p.S == "pmerged" && x == bytesOf(p) {
				flat(p.A[1])
				flat(p.A[2])
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range ops.A {
		flat(x)
	}
	return out
}

func sameList(s *State, a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && s.rw(a[i]) != s.rw(b[i]) {
			return false
		}
	}
	return true
}

func isMergeResult(v *V) bool {
	return v.Op == OStr && len(v.A) == 1 && v.A[0].S == "op" && v.A[0].A[1].Op == OApp && v.A[0].A[1].S == "merged"
}

func sameOps(s *State, want, got []*V) bool {
	want, got = normList(want), normList(got)
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		w, g := want[i], got[i]
		if w.S != g.S || !s.eq(w.A[0], g.A[0]) && !(s.rw(w.A[0]) == s.rw(g.A[0])) {
			return false
		}
		// the alternatives of a run may be listed in any order
		for _, x := range [][2][]*V{{w.A[1:], g.A[1:]}, {g.A[1:], w.A[1:]}} {
			for _, a := range x[0] {
				ok := false
				for _, b := range x[1] {
					if s.rw(indexed(w, a)) == s.rw(indexed(g, b)) {
						ok = true
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// indexed makes the position of a run's alternative explicit.
func indexed(seg, v *V) *V {
	if seg.S != "star" {
		return v
	}
	return subst(v, func(x *V) *V {
		if x.Op == OApp && x.S == "at" {
			return x
		}
		if x.Op == OSym && symOf(x).many {
			return App("at", x, vIdx)
		}
		return nil
	})
}

// endGet checks the answer of a point lookup: C04, C10.
func (e *Engine) endGet(c *Call, rd, key, val, err *V) {
	s := c.s
	backend := s.ghostStr("backend")
	pos := c.pos()
	k := s.rw(s.content(key))
	if s.ghostOn("fail") {
		e.require("C10", "fail:"+backend, s.nilness(err) == 0, "a lookup that failed in the engine ("+s.ghostStr("fail")+") does not report an error", s, pos)
		return
	}
	switch s.truth(presentTerm(k)) {
	case 0:
		e.require("C10", "absent:"+backend, s.nilness(err) == 1 && s.nilness(val) == 1, "the lookup of an absent key does not return (nil, nil)", s, pos)
	case 1:
		e.require("C10", "present:"+backend, s.nilness(err) == 1 && s.nilness(val) == 0, "the lookup of a present key may return a nil value or an error", s, pos)
		e.require("C10", "value:"+backend, s.rw(s.content(val)) == s.rw(bytesOf(storedTerm(k))), "the lookup does not return the value stored under the key", s, pos)
		e.require("C04", "copy:"+backend, s.private(val), "the value returned by a lookup shares memory with the engine: "+s.regionOfSlice(val), s, pos)
		e.require("C04", "kept:"+backend, val.Op != OSlice || val.Obj == 0 || !s.reaches(rd, val.Obj), "the reader keeps the memory of the value it returned", s, pos)
	default:
		if s.nilness(err) == 0 {
			return
		}
		e.require("C10", "unread:"+backend, false, "the lookup answers without having asked the engine for the key", s, pos)
	}
}

// reaches: object id can be reached from v or from a global.
func (s *State) reaches(v *V, id ObjID) bool {
	seen := map[ObjID]bool{}
	var todo []ObjID
	add := func(x *V) {
		walk(x, func(y *V) {
			if y.Obj != 0 && !seen[y.Obj] {
				seen[y.Obj] = true
				todo = append(todo, y.Obj)
			}
		})
	}
	add(v)
	for o := range s.heap {
		if strings.HasPrefix(s.heap[o].Region, "global:") {
			add(Ref(o))
		}
	}
	for len(todo) > 0 {
		o := s.heap[todo[len(todo)-1]]
		todo = todo[:len(todo)-1]
		if o != nil {
			o.eachVal(add)
		}
	}
	return seen[id]
}

// private: the bytes are memory of their own.
func (s *State) private(v *V) bool {
	if v.Op != OSlice {
		return v.Op == ONil
	}
	if v.Obj == 0 {
		return true
	}
	return s.regionOfSlice(v) == "fresh"
}

// entry checks what an iterator exposes: C15, C16.
func (e *Engine) entry(c *Call) {
	k, v, ok := c.args[0], c.args[1], c.args[2]
	what := mustStr(c.args[3])
	pos := c.pos()
	run := func(s *State, valid bool) {
		be := s.ghostStr("backend") + ":" + what
		if !valid {
			e.require("C16", "hidden:"+be, s.nilness(k) == 1 && s.nilness(v) == 1, "an iterator that is not valid still exposes a key or a value", s, pos)
			c.ret(s)
			return
		}
		key := s.rw(s.content(k))
		if s.ghostOn("fail") {
			// the scan has failed; its error is checked when it is closed
			c.ret(s)
			return
		}
		b := s.ghost["bound"]
		switch b.A[0].S {
		case "prefix":
			e.require("C15", "prefix:"+be, s.truth(App("hasprefix", key, s.rw(b.A[1]))) == 1, "the iterator is valid at a key that does not have its prefix"+e.dbg("key %v bound %v facts %v", key, b, s.factList()), s, pos)
		case "range":
			e.require("C15", "start:"+be, s.truth(GE(s.cmp(key, s.rw(b.A[1])))) == 1 || len(s.rw(b.A[1]).A) == 0, "the iterator is valid at a key before the start of its range"+e.dbg("key %v bound %v facts %v", key, b, s.factList()), s, pos)
			if t := s.truth(b.A[3]); t != 1 {
				u := s
				if t == -1 {
					u = s.clone()
				}
				if u.assume(b.A[3], false) {
					end := u.rw(b.A[2])
					e.require("C15", "end:"+be, u.truth(GE(AddN(u.cmp(end, key), -1))) == 1, "the iterator is valid at a key that is not before the end of its range"+e.dbg("key %v bound %v facts %v", key, b, u.factList()), u, pos)
				}
			}
		}
		e.require("C15", "value:"+be, s.rw(s.content(v)) == s.rw(valueOf(key)), "the value the iterator exposes is not that of its current key"+e.dbg("key %v value %v", key, s.content(v)), s, pos)
		c.ret(s)
	}
	s := c.s
	switch s.truth(ok) {
	case 1:
		run(s, true)
	case 0:
		run(s, false)
	default:
		t := s.clone()
		if t.assume(ok, true) {
			run(t, true)
		}
		if s.assume(ok, false) {
			run(s, false)
		}
	}
}

// endMulti checks a lookup of several keys: C11.
func (e *Engine) endMulti(c *Call) {
	s := c.s
	be := s.ghostStr("backend")
	keys, vals, err := c.args[0], c.args[1], c.args[2]
	pos := c.pos()
	defer func() { c.ret(s) }()
	if s.ghostOn("fail") {
		e.require("C11", "fail:"+be, s.nilness(err) == 0, "a lookup of several keys reports success although one of them failed", s, pos)
		return
	}
	e.require("C11", "ok:"+be, s.nilness(err) == 1, "a lookup of several keys fails although every single lookup succeeds", s, pos)
	n := s.sliceLen(keys)
	e.require("C11", "count:"+be, s.eq(s.rw(s.sliceLen(vals)), s.rw(n)), "a lookup of several keys does not return as many values as keys"+e.dbg("keys %v vals %v", n, s.sliceLen(vals)), s, pos)
	// the value at any position is that of the key at that position
	j := s.sym("position", nil)
	symOf(j).nonneg = true
	if !s.assume(GE(AddN(Sub(n, j), -1)), true) {
		return
	}
	for _, kc := range s.clone().sliceAt(keys, j) {
		for _, vc := range kc.s.sliceAt(vals, j) {
			t := vc.s
			k := t.rw(t.content(kc.v))
			want := App("getval", k)
			got := t.rw(t.content(vc.v))
			ok := got == t.rw(bytesOf(want)) || t.truth(App("isnil", want)) == 1 && t.nilness(vc.v) == 1
			if w := storedTerm(k); t.truth(presentTerm(k)) == 1 && got == t.rw(bytesOf(w)) || t.truth(presentTerm(k)) == 0 && t.nilness(vc.v) == 1 {
				ok = true
			}
			if ok && be != "store.MultiGet" {
				ok = t.private(vc.v) || t.regionOfSlice(vc.v) == "getval"
			}
			e.require("C11", "order:"+be, ok, "the value at some position is not that of the key at that position"+e.dbg("key %v got %v facts %v", k, got, t.factList()), t, pos)
		}
	}
}

// getval is the answer of a single lookup, which is checked on its own.
func (e *Engine) getval(c *Call) {
	s := c.s
	key := c.str(1)
	t := s.clone()
	err := mkErr(t, "lookup")
	t.note(c.pos(), "a lookup fails")
	t.failed("lookup", err)
	c.ret(t, nilSlice(), err)
	v := s.reify(App("getval", key), byteSliceT)
	if v.Obj != 0 {
		s.mut(v.Obj).Region = "fresh"
	}
	c.ret(s, v, vNil)
}

// sliceAt reads an element of a slice.
func (s *State) sliceAt(v, j *V) []choice {
	if v.Op != OSlice || v.Obj == 0 {
		return nil
	}
	return s.elAt(v.Obj, Add(v.A[0], j))
}
