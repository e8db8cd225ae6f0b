package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are analysed to a fixpoint.  The pattern of a loop head is a state
// that generalises every state seen there with the same signature; it is
// widened (anti-unified) with each new state until it covers all of them.

type headInfo struct {
	ver  int
	pat  *State
	gens int  // generalisations so far
	lost bool // the pattern was not explored: what led to it was superseded
	lead bool // a counter has been introduced
}

const maxUnroll = 64

func (e *Engine) loopHead(s *State, head *ssa.BasicBlock) []*State {
	s.keepCells()
	for id, o := range s.heap {
		if o.Attrs["last"] != nil {
			delete(s.mut(id).Attrs, "last")
		}
	}
	f := s.top()
	li := -1
	for i, l := range f.loops {
		if l.head == head {
			li = i
		}
	}
	s.gc()
	if li < 0 || !f.loops[li].counted {
		if u := s.openBool(); u != nil {
			for _, v := range []bool{true, false} {
				t := s
				if v {
					t = s.clone()
				}
				if t.settleBool(u, v) {
					e.loopHead(t, head)
				}
			}
			return nil
		}
	}
	watch := ""
	if li < 0 || !f.loops[li].counted {
		open, k := s.watchCases(head)
		if open != nil {
			for _, v := range []bool{true, false} {
				t := s
				if v {
					t = s.clone()
				}
				if t.assume(open, v) {
					e.loopHead(t, head)
				}
			}
			return nil
		}
		watch = k
	}
	if li >= 0 {
		f.loops = f.loops[:li+1]
		l := &f.loops[li]
		if e.bounded > 0 && !l.counted {
			if l.unroll >= e.bounded {
				return nil
			}
			return e.enterLoop(s, head, li, l.unroll+1)
		}
		if l.counted && l.unroll < maxUnroll {
			e.unrolls++
			return e.enterLoop(s, head, li, l.unroll+1)
		}
		entry := l.hk
		if i := strings.Index(entry, "!sig!"); i >= 0 {
			entry = entry[:i]
		}
		hk := entry + "!sig!" + watch + s.signature()
		return e.atHead(s, li, hk)
	}
	f.loops = append(f.loops, loopInst{head: head})
	return e.enterLoop(s, head, len(f.loops)-1, 0)
}

func (e *Engine) enterLoop(s *State, head *ssa.BasicBlock, li, unroll int) []*State {
	f := s.top()
	f.loops[li] = loopInst{head: head, unroll: unroll, tests: f.loops[li].tests}
	key := s.posKey() + "^"
	if e.coarse && e.bounded == 0 {
		key += s.signature()
	} else {
		key += s.canon()
	}
	f.loops[li].hk = key
	_, watch := s.watchCases(head)
	return e.atHead(s, li, key+"!sig!"+watch+s.signature())
}

func (e *Engine) atHead(s *State, li int, hk string) []*State {
	f := s.top()
	h := e.heads[hk]
	f.loops[li].hk = hk
	f.loops[li].counted = false
	if h == nil {
		if e.debug && os.Getenv("DBGHEAD") != "" {
			fmt.Printf("++++ %s head %d new key %x entry %x %s\n", f.fn, f.blk.Index, fnv32(hk), fnv32(hk[:strings.Index(hk, "!sig!")]), hk[strings.Index(hk, "!sig!")+5:])
			if os.Getenv("DBGHEAD") == "2" {
				fmt.Println(s.dump())
			}
		}
		h = &headInfo{ver: 1}
		e.heads[hk] = h
		f.loops[li].ver = 1
		h.pat = s.clone()
		s.atHead = hk
		e.push(s)
		return nil
	}
	f.loops[li].ver = h.ver
	// the pattern is compared without looking at this loop's version
	g, changed := e.generalise(h.pat, s, hk)
	if !changed {
		if h.lost {
			h.lost = false
			t := h.pat.clone()
			t.top().loops[li].ver = h.ver
			t.exits = append([]exitInst(nil), s.exits...)
			t.atHead = hk
			e.push(t)
		}
		return nil
	}
	h.lost = false
	h.gens++
	h.ver++
	g.top().loops[li].ver = h.ver
	g.exits = nil // part of it may come from elsewhere
	g.gc()
	h.pat = g.clone()
	if e.debug {
		fmt.Printf("---- %s head %d version %d key %x %s\n%s", f.fn, f.blk.Index, h.ver, fnv32(hk), hk[strings.Index(hk, "!sig!")+5:], g.dump())
	}
	if h.gens > 60 {
		panic(fmt.Sprintf("loop of %s does not stabilise\n%s", f.fn, g.dump()))
	}
	e.push(g)
	return nil
}

type genVal struct {
	gv, pv, sv *V
}

type generaliser struct {
	e       *Engine
	p, s, g *State
	hk      string
	id      string
	total   map[[2]*V]*V // lengths of lists
	bind    map[*V]*V
	pairs   map[[2]*V]*V
	objs    map[[2]ObjID]ObjID
	objFor  map[ObjID]ObjID
	done    map[[2]ObjID]bool
	news    []genVal
	ints    []genVal
	sums    []genVal // positions in lists where their parts meet
	leader  *V
	first   bool
	changed bool
	why     []string
	many    map[*V]bool // many symbols the new state contributes to
	manyF   map[*V]bool // facts carried over to many symbols
	manyB   map[*V]bool
	manyO   map[ObjID]ObjID
	part    []*V // the contents of the part of an array that becomes an element
	pSyms   map[int64]bool
	ctx     string
	body    map[int]bool
}

// inLoop reports whether a creation place lies in the body of this loop.
func (a *generaliser) inLoop(key string) bool {
	if !strings.HasPrefix(key, a.ctx) {
		return false
	}
	rest := key[len(a.ctx):]
	if rest == "" || rest[0] != '@' && rest[0] != '>' {
		return false
	}
	rest = rest[1:]
	n := 0
	for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
		n++
	}
	b, err := strconv.Atoi(rest[:n])
	return err == nil && a.body[b]
}

// sameShape tells whether two list elements may be merged field by field.
func (a *generaliser) sameShape(p, s *V, depth int) bool {
	if p == s {
		return true
	}
	if p.Op != s.Op {
		return (isAtom(p) || intish(p)) && (isAtom(s) || intish(s))
	}
	switch p.Op {
	case OFloat, OBool:
		return false
	case OClo:
		if p.Fn != s.Fn {
			return false
		}
	case OIface:
		if typeKey(p.T) != typeKey(s.T) {
			return false
		}
	case OPtr:
		if len(p.A) != len(s.A) {
			return false
		}
		po, so := a.p.heap[p.Obj], a.s.heap[s.Obj]
		if po == nil || so == nil || po.Kind != so.Kind || typeKey(po.T) != typeKey(so.T) {
			return false
		}
		if depth > 0 && po.Val != nil && so.Val != nil {
			return a.sameShape(po.Val, so.Val, depth-1)
		}
		return true
	case OSlice:
		return (p.A[3] == vTrue) == (s.A[3] == vTrue)
	case OTuple, OStruct, OArr, OSeg:
		if len(p.A) != len(s.A) || p.S != s.S {
			return false
		}
		for i := range p.A {
			if !a.sameShape(p.A[i], s.A[i], depth) {
				return false
			}
		}
	}
	return true
}

var headIDs = map[string]string{}

func (e *Engine) generalise(p, s *State, hk string) (*State, bool) {
	id, ok := headIDs[hk]
	if !ok {
		id = "h" + strconv.Itoa(len(headIDs))
		headIDs[hk] = id
	}
	a := &generaliser{e: e, p: p, s: s, hk: hk, id: id, bind: map[*V]*V{}, pairs: map[[2]*V]*V{}, total: map[[2]*V]*V{}, objs: map[[2]ObjID]ObjID{}, objFor: map[ObjID]ObjID{}, done: map[[2]ObjID]bool{},
		many: map[*V]bool{}, manyF: map[*V]bool{}, manyB: map[*V]bool{}, manyO: map[ObjID]ObjID{}, pSyms: map[int64]bool{}}
	a.first = !e.heads[hk].lead
	tf := s.top()
	a.ctx = tf.ctx
	a.body = map[int]bool{}
	for b := range tf.info.loops[tf.blk].blocks {
		a.body[b.Index] = true
	}
	a.g = s.clone()
	g := a.g
	g.heap = map[ObjID]*Obj{}
	g.own = map[ObjID]bool{}
	mark := func(v *V) {
		walk(v, func(x *V) {
			if x.Op == OSym {
				a.pSyms[x.N] = true
			}
		})
	}
	p.eachRoot(func(_ string, v *V) { mark(v) })
	for _, o := range p.heap {
		o.eachVal(mark)
	}
	// the roots
	for i, f := range g.frames {
		pf := p.frames[i]
		// integers last: they may be lengths of lists
		for _, ints := range []bool{false, true} {
			for r := range f.env {
				pv := pf.env[r]
				sv := s.frames[i].env[r]
				if pv == nil || sv == nil {
					f.env[r] = nil
					continue
				}
				if (intish(pv) || intish(sv) || isAtom(pv) || isAtom(sv)) == ints {
					f.env[r] = a.au(pv, sv, fmt.Sprintf("f%d.r%d", i, r))
				}
			}
		}
		for j := range f.defers {
			d := &f.defers[j]
			pd := pf.defers[j]
			if d.fn != nil {
				d.fn = a.au(pd.fn, d.fn, fmt.Sprintf("f%d.d%d", i, j))
			}
			na := make([]*V, len(d.args))
			for k := range d.args {
				na[k] = a.au(pd.args[k], d.args[k], fmt.Sprintf("f%d.d%d.%d", i, j, k))
			}
			d.args = na
		}
		na := make([]*V, len(f.args))
		for k := range f.args {
			na[k] = a.au(pf.args[k], f.args[k], fmt.Sprintf("f%d.a%d", i, k))
		}
		f.args = na
	}
	var ks []string
	for k := range p.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if sv, ok := s.ghost[k]; ok {
			g.ghost[k] = a.au(p.ghost[k], sv, "g."+k)
		}
	}
	// pinned objects, and modified objects of opaque terms
	var ids []int
	for id, o := range p.heap {
		if o.Attrs["pinned"] != nil || o.Attrs["dirty"] != nil && o.Attrs["memo"] != nil {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s.heap[ObjID(id)] != nil {
			a.auObj(ObjID(id), ObjID(id), "pin"+strconv.Itoa(id))
		}
	}
	a.mirrors()
	// remaining references (children, many objects)
	a.closeHeap()
	syms := map[int64]bool{}
	look := func(v *V) {
		walk(v, func(x *V) {
			if x.Op == OSym {
				syms[x.N] = true
			}
		})
	}
	g.eachRoot(func(_ string, v *V) { look(v) })
	for _, o := range g.heap {
		o.eachVal(look)
	}
	for id, o := range s.heap {
		pin := o.Attrs["pinned"] != nil
		if p.heap[id] == nil && g.heap[id] == nil && (pin || o.Attrs["dirty"] != nil && o.Attrs["memo"] != nil && symsLive(o.Attrs["memo"], syms)) {
			g.heap[id] = o
			if !pin || !strings.HasPrefix(objNames[id], "global:") {
				a.change("new object " + objNames[id])
			}
		}
	}
	a.closeHeap()
	a.facts()
	if e.debug && a.changed {
		fmt.Println("generalised:", a.why)
	}
	return g, a.changed
}

func (a *generaliser) change(why string) {
	a.changed = true
	if len(a.why) < 20 {
		a.why = append(a.why, why)
	}
}

// bindable symbols were introduced by this loop head.
func (a *generaliser) bindable(v *V) bool {
	return v.Op == OSym && symOf(v).head == a.id
}

func (a *generaliser) hasBindable(v *V) bool {
	found := false
	walk(v, func(x *V) {
		if a.bindable(x) {
			found = true
		}
	})
	return found
}

func (a *generaliser) newGen(loc, origin string) *V {
	k := "gen:" + a.id + "@" + loc
	v, ok := symByKey[k]
	if !ok {
		v = newSym(origin, nil)
		i := symOf(v)
		i.gen = true
		i.head = a.id
		symByKey[k] = v
	}
	return v
}

func (a *generaliser) whole(pv, sv *V, loc string) *V {
	k := [2]*V{pv, sv}
	if x, ok := a.pairs[k]; ok {
		return x
	}
	if a.bindable(pv) {
		b, ok := a.bind[pv]
		if !ok || b == sv {
			a.bind[pv] = sv
			return pv
		}
	}
	x := a.newGen(loc, "loop")
	if r := regionOf2(pv, sv); r != "" {
		symOf(x).region = r
	}
	a.pairs[k] = x
	a.news = append(a.news, genVal{x, pv, sv})
	a.change("any " + loc + ": " + descr(pv) + " / " + descr(sv))
	return x
}

// regionOf2 keeps the more restrictive region of two values.
func regionOf2(p, s *V) string {
	for _, v := range []*V{s, p} {
		if isAtom(v) {
			if r := regionOf(v); r != "fresh" && !strings.HasPrefix(r, "ext:?") {
				return r
			}
		}
	}
	if isAtom(p) || isAtom(s) {
		return "fresh"
	}
	return ""
}

func intish(v *V) bool { return v.Op == OInt || v.Op == OLin }

func (a *generaliser) auInt(p, s *V, loc string) *V {
	if n := a.total[[2]*V{p, s}]; n != nil && p.Op != OInt {
		if n != p {
			a.change("length of a list " + loc)
		}
		return n
	}
	r := a.auInt1(p, s, loc)
	a.ints = append(a.ints, genVal{r, p, s})
	return r
}

// rigid finds a length that stays the same for the whole run and is p in one
// state, s in the other.
func (a *generaliser) rigid(p, s *V) *V {
	if !a.p.watching() {
		return nil
	}
	var best *V
	for _, st := range []*State{a.p, a.s} {
		for _, q := range st.eqs {
			t := q.atom
			if t.Op != OApp || t.S != "len" || t.A[0].Op != OSym || !symOf(t.A[0]).perm {
				continue
			}
			for m := int64(1); m <= 4; m++ {
				d := Sub(MulN(a.p.rw(t), m), p)
				if n, ok := isInt(d); ok && (m == 1 || a.p.rw(t) != a.s.rw(t)) && n > -5 && n < 5 && Sub(MulN(a.s.rw(t), m), s) == d {
					if r := AddN(MulN(t, m), -n); best == nil || r.id < best.id {
						best = r
					}
				}
			}
		}
	}
	return best
}

func (a *generaliser) auInt1(p, s *V, loc string) *V {
	n, as, cs := linParts(p)
	_ = n
	var bs []int
	for i, x := range as {
		if a.bindable(x) {
			bs = append(bs, i)
		}
	}
	if len(bs) == 0 {
		if p == s {
			return p
		}
		if a.hasBindable(p) {
			if r := a.auStruct(p, s, loc); r != nil {
				return r
			}
			if r := a.auLens(p, s, loc); r != nil {
				return r
			}
			return a.whole(p, s, loc)
		}
		if t := a.rigid(p, s); t != nil {
			if t != p {
				a.change("fixed " + loc)
			}
			return t
		}
		d := Sub(s, p)
		if c, ok := isInt(d); ok && a.first {
			if a.leader == nil {
				a.leader = a.newGen("#n", "iter")
				symOf(a.leader).nonneg = true
				a.news = append(a.news, genVal{a.leader, Int(0), Int(1)})
				a.change("counter " + loc)
				a.e.heads[a.hk].lead = true
			}
			return Add(p, MulN(a.leader, c))
		}
		if p.Op == OApp && s.Op == OApp {
			if r := a.auStruct(p, s, loc); r != nil {
				return r
			}
		}
		if r := a.auLens(p, s, loc); r != nil {
			return r
		}
		return a.whole(p, s, loc)
	}
	// solve for one unbound symbol
	rest := p
	un := -1
	for _, i := range bs {
		if b, ok := a.bind[as[i]]; ok {
			rest = Add(linComb(rest, 1, as[i], -cs[i]), MulN(b, cs[i]))
			continue
		}
		if un >= 0 {
			return a.whole(p, s, loc)
		}
		un = i
		rest = linComb(rest, 1, as[i], -cs[i])
	}
	d := a.s.rw(Sub(s, rest))
	if un < 0 {
		if a.s.eq(s, rest) {
			return p
		}
		if a.bindable(p) { // a lone symbol in conflict
			return a.whole(p, s, loc)
		}
		return a.whole(p, s, loc)
	}
	c := cs[un]
	if q := divLin(d, abs(c)); q != nil {
		if c < 0 {
			q = MulN(q, -1)
		}
		x := as[un]
		if symOf(x).nonneg && !a.s.proveGE(q) {
			return a.whole(p, s, loc)
		}
		a.bind[x] = q
		return p
	}
	return a.whole(p, s, loc)
}

// auLens generalises two sums that differ in the length of one string only.
func (a *generaliser) auLens(p, s *V, loc string) *V {
	if p.Op != OLin || s.Op != OLin || p.N != s.N || len(p.A) != len(s.A) {
		return nil
	}
	var px, sx *V
	var pc, sc int64
	left := func(x, y *V) (r *V, c int64, ok bool) {
		for i, t := range x.A {
			same := false
			for j, u := range y.A {
				same = same || t == u && x.C[i] == y.C[j] && !a.hasBindable(t)
			}
			if same {
				continue
			}
			if r != nil {
				return nil, 0, false
			}
			r, c = t, x.C[i]
		}
		return r, c, r != nil && r.Op == OApp && r.S == "len" && r.A[0].Op == OSym
	}
	var ok1, ok2 bool
	px, pc, ok1 = left(p, s)
	sx, sc, ok2 = left(s, p)
	if !ok1 || !ok2 || pc != sc {
		return nil
	}
	r := a.au(px.A[0], sx.A[0], loc)
	if r == nil || r.Op != OSym {
		return nil
	}
	return linComb(linComb(p, 1, px, -pc), 1, App("len", r), pc)
}

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func (a *generaliser) au(p, s *V, loc string) *V {
	if p == s && p.Obj == 0 && len(p.A) == 0 && !a.bindable(p) {
		return p
	}
	if intish(p) || intish(s) {
		if isAtom(p) || isAtom(s) || intish(p) && intish(s) {
			return a.auInt(p, s, loc)
		}
	}
	if a.bindable(p) {
		if b, ok := a.bind[p]; ok && b != s {
			return a.whole(p, s, loc)
		}
		if symOf(p).nonneg && !a.s.proveGE(s) {
			return a.whole(p, s, loc)
		}
		a.bind[p] = s
		return p
	}
	if r := a.auStruct(p, s, loc); r != nil {
		return r
	}
	if p.Op == OStr || s.Op == OStr {
		x := a.whole(p, s, loc)
		if x.Op == OSym {
			return StrV([]*V{Seg("op", App("len", x), x, Int(0))})
		}
		return x
	}
	return a.whole(p, s, loc)
}

// auStruct descends into values of the same shape; nil when they differ.
func (a *generaliser) auStruct(p, s *V, loc string) *V {
	if p.Op == OSlice && s.Op == OSlice {
		o := a.auObjRef(p.Obj, s.Obj, loc)
		off := a.auInt(p.A[0], s.A[0], loc+".o")
		n := a.wholeList(o, p, s, off)
		if n != nil {
			if n != p.A[1] {
				a.change("all of a list " + loc)
			}
			a.total[[2]*V{p.A[1], s.A[1]}] = n
		} else {
			n = a.auInt(p.A[1], s.A[1], loc+".l")
		}
		return SliceV(o, off, n, a.auInt(p.A[2], s.A[2], loc+".c"), a.auB(p.A[3], s.A[3], loc+".z"))
	}
	if p.Op == OStr && s.Op == OStr {
		if len(p.A) != len(s.A) {
			return nil
		}
		for i := range p.A {
			if p.A[i].S != s.A[i].S || p.A[i].S == "lit" && p.A[i] != s.A[i] {
				return nil
			}
		}
		out := make([]*V, len(p.A))
		for i := range p.A {
			out[i] = a.auSeg(p.A[i], s.A[i], loc+"."+strconv.Itoa(i))
		}
		return StrV(out)
	}
	if p.Op != s.Op || p.S != s.S || p.N != s.N || p.Fn != s.Fn || len(p.A) != len(s.A) || len(p.A) == 0 && p.Obj == 0 && p != s {
		return nil
	}
	if p.T != s.T && typeKey(p.T) != typeKey(s.T) {
		return nil
	}
	switch p.Op {
	case OSym, OInt, OLin, OBool, OFloat, ONil, OFld:
		if p == s {
			return p
		}
		return nil
	case OPtr:
		for i := range p.A {
			if p.A[i].Op == OFld && p.A[i] != s.A[i] {
				return nil
			}
		}
	}
	r := *s
	if p.Obj != 0 || s.Obj != 0 {
		if p.Obj == 0 || s.Obj == 0 {
			return nil
		}
		po, so := a.p.obj(p.Obj), a.s.obj(s.Obj)
		if po.Kind != so.Kind || typeKey(po.T) != typeKey(so.T) {
			return nil
		}
		r.Obj = a.auObj(p.Obj, s.Obj, loc)
	}
	na := make([]*V, len(p.A))
	for i := range p.A {
		na[i] = a.au(p.A[i], s.A[i], loc+"."+strconv.Itoa(i))
	}
	if len(na) == 0 {
		return intern(&r)
	}
	if r.Obj != 0 {
		r.A = na
		return intern(&r)
	}
	return rebuild(&r, na)
}

// wholeList gives the length of a slice that reaches to the end of its list in
// both states.
func (a *generaliser) wholeList(o ObjID, p, s, off *V) *V {
	g := a.g.heap[o]
	if o == 0 || g == nil || g.Kind != KArr || g.Bytes || g.T == nil || len(g.Segs) == 0 {
		return nil
	}
	ends := func(st *State, x *V) bool {
		l := st.heap[x.Obj]
		return l != nil && !l.Bytes && len(l.Segs) > 0 && st.rw(Sub(Sub(segsLen(l.Segs), x.A[0]), x.A[1])) == Int(0)
	}
	if !ends(a.p, p) || !ends(a.s, s) {
		return nil
	}
	return Sub(segsLen(g.Segs), off)
}

func (a *generaliser) auB(p, s *V, loc string) *V {
	if p == s && !a.hasBindable(p) {
		return p
	}
	return a.au(p, s, loc)
}

func (a *generaliser) auSeg(p, s *V, loc string) *V {
	if p == s && !a.hasBindable(p) {
		return p
	}
	full := func(g *V) bool {
		return len(g.A) == 3 && g.A[2] == Int(0) && g.A[0] == App("len", g.A[1])
	}
	if p.S == "op" && s.S == "op" && full(p) && full(s) {
		// all of a content
		x := a.au(p.A[1], s.A[1], loc+".1")
		if x.Op == OStr && len(x.A) == 1 && x.A[0].S == "op" && full(x.A[0]) {
			x = x.A[0].A[1]
		}
		if isAtom(x) {
			return Seg("op", App("len", x), x, Int(0))
		}
		return Seg("op", a.auInt(p.A[0], s.A[0], loc+".n"), x, Int(0))
	}
	na := make([]*V, len(p.A))
	na[0] = a.auInt(p.A[0], s.A[0], loc+".n")
	for i := 1; i < len(p.A); i++ {
		if p.S == "lit" {
			na[i] = p.A[i]
			continue
		}
		na[i] = a.au(p.A[i], s.A[i], loc+"."+strconv.Itoa(i))
	}
	return Seg(p.S, na[0], na[1:]...)
}

func (a *generaliser) auObjRef(po, so ObjID, loc string) ObjID {
	if po == 0 && so == 0 {
		return 0
	}
	return a.auObj(po, so, loc)
}

var emptyObj = &Obj{Kind: KArr, Region: "fresh", Attrs: map[string]*V{}}

func (a *generaliser) auObj(po, so ObjID, loc string) ObjID {
	k := [2]ObjID{po, so}
	if id, ok := a.objs[k]; ok {
		return id
	}
	var id ObjID
	if po == so {
		id = po
	} else if po != 0 && a.isGenObj(po) && a.objFor[po] == 0 {
		id = po
	} else {
		id = objID("gobj:" + a.id + "@" + loc)
		if a.g.heap[id] != nil {
			id = objID(fmt.Sprintf("gobj:%s@%s+%d.%d", a.id, loc, po, so))
		}
		a.change("object " + loc)
	}
	if po != 0 {
		a.objFor[po] = so
		if so == 0 {
			a.objFor[po] = -1
		}
	}
	a.objs[k] = id
	p, s := a.p.heap[po], a.s.heap[so]
	if p == nil {
		p = emptyObj
	}
	if s == nil {
		s = emptyObj
	}
	o := s.clone()
	if s == emptyObj {
		o = p.clone()
	}
	o.ID = id
	a.g.heap[id] = o
	a.g.own[id] = true
	o.Many = p.Many || s.Many
	if p.Region != s.Region && p.Region != "fresh" {
		o.Region = p.Region
	}
	if p.Val != nil && s.Val != nil {
		o.Val = a.au(p.Val, s.Val, loc+".v")
	}
	if o.Kind == KArr || o.Kind == KMap {
		if o.Kind == KMap && (p.Attrs["approx"] != nil || s.Attrs["approx"] != nil) && p != emptyObj && s != emptyObj {
			o.Segs = a.auApprox(p, s, loc)
		} else {
			o.Segs = a.auSegs(p.Segs, s.Segs, o.Bytes, loc+".s")
		}
		if o.Kind == KArr {
			o.norm()
		}
	}
	attrs := map[string]*V{}
	for n, pv := range p.Attrs {
		_, ok := s.Attrs[n]
		switch {
		case n == "child" || n == "childat" || n == "childbase" || n == "mirror":
			continue
		case ok:
			attrs[n] = nil
		case n == "alias" || n == "approx" || n == "dirty" || n == "part":
			attrs[n] = pv
		}
	}
	for n, sv := range s.Attrs {
		if _, ok := p.Attrs[n]; !ok && (n == "alias" || n == "approx" || n == "dirty") {
			attrs[n] = sv
			if p != emptyObj {
				a.change("attribute " + n)
			}
		}
	}
	var ns []string
	for n := range attrs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if attrs[n] == nil {
			attrs[n] = a.au(p.Attrs[n], s.Attrs[n], loc+".a"+n)
		}
	}
	o.Attrs = attrs
	for _, x := range []*Obj{p, s} {
		if m := x.Attrs["mirror"]; m != nil {
			for _, r := range m.A {
				a.mirror(o, r.Obj)
				a.keepObjs(r, a.p)
				a.keepObjs(r, a.s)
			}
		}
	}
	if o.Attrs["mirror"] != p.Attrs["mirror"] && p != emptyObj {
		a.change("mirror " + loc)
	}
	return id
}

// mirror notes that an object is one of those that the object to many stands
// for: what is written to it is written there.
func (a *generaliser) mirror(o *Obj, many ObjID) {
	var rs []*V
	if m := o.Attrs["mirror"]; m != nil {
		rs = append(rs, m.A...)
	}
	for _, r := range rs {
		if r.Obj == many {
			return
		}
	}
	rs = append(rs, Ref(many))
	sort.Slice(rs, func(i, j int) bool { return rs[i].Obj < rs[j].Obj })
	o.Attrs["mirror"] = Tuple(rs...)
	if m := a.g.heap[many]; m != nil && m.Attrs["part"] == nil {
		if !a.g.own[many] {
			m = m.clone()
			a.g.heap[many] = m
			a.g.own[many] = true
		}
		m.Attrs["part"] = vTrue
	}
}

// partOf turns a slice of a part of a byte array into one of an array that
// holds just this part.
func (a *generaliser) partOf(x *V, from *State, conv func(ObjID) ObjID) *V {
	o := from.heap[x.Obj]
	if x.Op != OSlice || o == nil || !o.Bytes || o.Many || o.Val != nil || o.Attrs["memo"] != nil || x.A[0] == Int(0) {
		return nil
	}
	segs, ok := subSegs(from, o.Segs, x.A[0], x.A[1])
	if !ok {
		return nil
	}
	a.part = segs
	n := conv(x.Obj)
	if a.part != nil {
		// it stays what it is
		a.part = nil
		return nil
	}
	return Ref(n)
}

// mirrors links the objects that are live on their own and as an element of a
// list.
func (a *generaliser) mirrors() {
	var ks [][2]ObjID
	for k, id := range a.objs {
		if a.g.heap[id] != nil && !a.g.heap[id].Many {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	for _, k := range ks {
		id := a.objs[k]
		for _, x := range k {
			n, ok := a.manyO[x]
			if !ok || n == id || a.g.heap[n] == nil || a.g.heap[id].Kind != KArr {
				continue
			}
			o := a.g.heap[id]
			old := o.Attrs["mirror"]
			a.mirror(o, n)
			if o.Attrs["mirror"] != old && (a.p.heap[k[0]] == nil || a.p.heap[k[0]].Attrs["mirror"] != o.Attrs["mirror"]) {
				a.change("mirror " + objNames[id])
			}
		}
	}
}

func (a *generaliser) isGenObj(id ObjID) bool {
	return strings.HasPrefix(objNames[id], "gobj:"+a.id+"@")
}

func isRun(g *V) bool { return g.S == "el" || g.S == "star" }

// unpack turns the short opaque parts of a list into elements.
func unpack(st *State, segs []*V) []*V {
	var out []*V
	for _, g := range segs {
		if n := st.rw(g.A[0]); g.S == "lazy" && n.Op == OInt && n.N >= 0 && n.N <= 4 && !st.watchedSeg(g) && !st.watchedPart(g) {
			for i := int64(0); i < n.N; i++ {
				out = append(out, Seg("el", Int(1), App("elem", g.A[1], AddN(g.A[2], i))))
			}
			continue
		}
		out = append(out, g)
	}
	return out
}

func (a *generaliser) auSegs(p, s []*V, bytes bool, loc string) []*V {
	if !bytes && a.s.watching() && len(p) != len(s) {
		p, s = unpack(a.p, p), unpack(a.s, s)
	}
	same := len(p) == len(s)
	star := false
	if same {
		for i := range p {
			if p[i].S != s[i].S || len(p[i].A) != len(s[i].A) || p[i].S == "lit" && p[i] != s[i] {
				same = false
			}
			if p[i].S == "star" || s[i].S == "star" {
				star = true
			}
			if a.p.watchedSeg(p[i]) != a.s.watchedSeg(s[i]) {
				same = false
			}
			if same && p[i].S == "el" && s[i].S == "el" && !a.sameShape(p[i].A[1], s[i].A[1], 2) {
				star = true
			}
		}
	}
	if same && !star {
		out := make([]*V, len(p))
		for i := range p {
			out[i] = a.auSeg(p[i], s[i], loc+strconv.Itoa(i))
		}
		return out
	}
	if bytes {
		n := a.auInt(segsLen(p), segsLen(s), loc+".n")
		pv := StrV(p)
		if len(p) == 1 && p[0].S == "op" && p[0].A[2] == Int(0) && a.bindable(p[0].A[1]) {
			// any content already
			pv = p[0].A[1]
		}
		x := a.whole(pv, StrV(s), loc+".b")
		return []*V{Seg("op", n, x, Int(0))}
	}
	// runs separated by fixed segments
	type part struct {
		run   []*V
		at    *V
		fixed *V
	}
	lazies := false // opaque parts belong to the runs
	split := func(st *State, segs []*V) []part {
		out := []part{{at: Int(0)}}
		acc := Int(0)
		for _, g := range segs {
			if (isRun(g) || lazies && g.S == "lazy") && !st.watchedSeg(g) && !st.watchedPart(g) {
				l := &out[len(out)-1]
				l.run = append(l.run, g)
			} else {
				out[len(out)-1].fixed = g
				out = append(out, part{at: Add(acc, g.A[0])})
			}
			acc = Add(acc, g.A[0])
		}
		return out
	}
	aligned := func(pp, sp []part) bool {
		if len(pp) != len(sp) {
			return false
		}
		for i := range pp {
			if (pp[i].fixed == nil) != (sp[i].fixed == nil) || pp[i].fixed != nil && pp[i].fixed.S != sp[i].fixed.S {
				return false
			}
			if pp[i].fixed != nil && a.p.watchedPart(pp[i].fixed) != a.s.watchedPart(sp[i].fixed) {
				return false
			}
		}
		return true
	}
	pp, sp := split(a.p, p), split(a.s, s)
	ok := aligned(pp, sp)
	if !ok && a.s.watching() {
		lazies = true
		p2, s2 := split(a.p, p), split(a.s, s)
		if ok = aligned(p2, s2) && len(p2) > 1; ok {
			pp, sp = p2, s2
		}
	}
	if !ok {
		// a trailing fixed segment that has been used up
		usedUp := func(long, short []part) []part {
			f := long[len(long)-2].fixed
			u := cutSeg(f, f.A[0], f.A[0])
			if u.S != f.S || len(u.A) != len(f.A) {
				return short
			}
			ok = true
			short = append([]part(nil), short...)
			short[len(short)-1].fixed = u
			return append(short, part{})
		}
		if len(pp) == len(sp)+1 && pp[len(pp)-1].run == nil {
			sp = usedUp(pp, sp)
		} else if len(sp) == len(pp)+1 && sp[len(sp)-1].run == nil {
			pp = usedUp(sp, pp)
		}
		ok = ok && aligned(pp, sp)
	}
	if !ok {
		n := a.auInt(segsLen(p), segsLen(s), loc+".n")
		x := a.whole(listOf(p), listOf(s), loc+".b")
		return []*V{Seg("lazy", n, x, Int(0))}
	}
	var out []*V
	pacc, sacc := Int(0), Int(0)
	sum := func(p, s []*V) {
		pacc, sacc = Add(pacc, segsLen(p)), Add(sacc, segsLen(s))
		a.sums = append(a.sums, genVal{segsLen(out), pacc, sacc})
	}
	for i := range pp {
		hasLazy := false
		for _, g := range append(append([]*V(nil), pp[i].run...), sp[i].run...) {
			hasLazy = hasLazy || !isRun(g)
		}
		if l := loc + "." + strconv.Itoa(i); hasLazy {
			n := a.auInt(segsLen(pp[i].run), segsLen(sp[i].run), l+".n")
			x := a.whole(listOf(pp[i].run), listOf(sp[i].run), l+".b")
			out = append(out, Seg("lazy", n, x, Int(0)))
			sum(pp[i].run, sp[i].run)
			if pp[i].fixed != nil {
				out = append(out, a.auSeg(pp[i].fixed, sp[i].fixed, l+".x"))
				sum([]*V{pp[i].fixed}, []*V{sp[i].fixed})
			}
			continue
		}
		out = append(out, a.auRun(pp[i].run, sp[i].run, loc+"."+strconv.Itoa(i))...)
		sum(pp[i].run, sp[i].run)
		if pp[i].fixed != nil {
			out = append(out, a.auSeg(pp[i].fixed, sp[i].fixed, loc+".x"+strconv.Itoa(i)))
			sum([]*V{pp[i].fixed}, []*V{sp[i].fixed})
		}
	}
	return out
}

// listOf is a term for a list of parts.
func listOf(segs []*V) *V {
	if len(segs) == 1 && segs[0].S == "lazy" && segs[0].A[2] == Int(0) {
		return segs[0].A[1]
	}
	return App("list", segs...)
}

func (a *generaliser) auRun(p, s []*V, loc string) []*V {
	var out []*V
	for len(p) > 0 && len(s) > 0 && p[0].S == "el" && p[0] == s[0] && !a.hasBindable(p[0]) && a.sameObjs(p[0]) {
		a.keepObjs(p[0], a.s)
		out = append(out, p[0])
		p, s = p[1:], s[1:]
	}
	if len(p) == len(s) {
		all := true
		for i := range p {
			if p[i].S != "el" || s[i].S != "el" || !a.sameShape(p[i].A[1], s[i].A[1], 2) {
				all = false
			}
		}
		if all {
			for i := range p {
				out = append(out, a.auSeg(p[i], s[i], loc+".e"+strconv.Itoa(i)))
			}
			return out
		}
	}
	if len(p) == 0 && len(s) == 0 {
		return out
	}
	return append(out, a.auStar(p, s, nil, loc))
}

// auApprox merges maps whose entries are not all known: the order and the
// number of their entries does not matter, but for the watched ones.
func (a *generaliser) auApprox(po, so *Obj, loc string) []*V {
	split := func(st *State, segs []*V) (w, rest []*V, ok bool) {
		ok = true
		for _, g := range segs {
			switch {
			case st.watchedSeg(g):
				w = append(w, g)
			case isRun(g):
				rest = append(rest, g)
			default:
				ok = false
			}
		}
		return
	}
	pw, pr, ok1 := split(a.p, po.Segs)
	sw, sr, ok2 := split(a.s, so.Segs)
	if !ok1 || !ok2 || len(pw) != len(sw) || po.Attrs["len"] == nil || so.Attrs["len"] == nil {
		return a.auSegs(po.Segs, so.Segs, false, loc+".s")
	}
	var out []*V
	for i := range pw {
		out = append(out, a.auSeg(pw[i], sw[i], loc+".w"+strconv.Itoa(i)))
	}
	if len(pr)+len(sr) == 0 {
		return out
	}
	n := a.au(po.Attrs["len"], so.Attrs["len"], loc+".alen")
	// of the entries besides the watched ones little needs to be known
	if mt, ok := under(po.T).(*types.Map); ok && a.g.watching() {
		mk := func(what string, t types.Type) *V {
			x := a.manySym(a.newGen(loc+what, "any"))
			symOf(x).typ = t
			return a.g.reify(x, t)
		}
		any := Tuple(mk(".anykey", mt.Key()), mk(".anyval", mt.Elem()))
		known := 0
		for _, g := range pr {
			for _, v := range g.A[1:] {
				if v == any {
					return append(out, starSeg(n, []*V{any}))
				}
			}
			known += len(g.A) - 1
		}
		if known > 3 {
			a.change("entries of a map " + loc)
			return append(out, starSeg(n, []*V{any}))
		}
	}
	return append(out, a.auStar(pr, sr, n, loc+".o"))
}

func (a *generaliser) auStar(p, s []*V, n *V, loc string) *V {
	var alts []*V
	var notes []string
	note := func(w string) { notes = append(notes, w) }
	unordered := n != nil
	if n == nil {
		n = a.auInt(segsLen(p), segsLen(s), loc+".n")
	}
	add := func(v *V) bool {
		if unordered {
			// any instance of what the entries were taken from
			v = subst(v, func(x *V) *V {
				if x.Op == OApp && x.S == "at" && len(x.A) == 2 && x.A[0].Op == OSym && symOf(x.A[0]).many {
					return x.A[0]
				}
				return nil
			})
		}
		for _, x := range alts {
			if x == v {
				return false
			}
		}
		alts = append(alts, v)
		return true
	}
	// an alternative guessed from the first element alone gives way to a
	// better one
	guess := func(v *V) string { return fmt.Sprintf("%s@%s:%d", a.hk, loc, v.id) }
	better := func(v *V) bool {
		if n != nil && unordered || !contains(v, vIdx) {
			return false
		}
		for i, x := range alts {
			if x != v && a.e.guessed[guess(x)] && a.s.rw(instAll(x, Int(0))) == a.s.rw(instAll(v, Int(0))) {
				delete(a.e.guessed, guess(x))
				alts = append(alts[:i:i], alts[i+1:]...)
				return true
			}
		}
		return false
	}
	pos := Int(0)
	for _, g := range p {
		for _, v := range g.A[1:] {
			if g.S == "el" {
				x := a.wholes(a.manyify(v, pos, a.p), a.p)
				if add(x) && pos == Int(0) {
					a.e.guessed[guess(x)] = true
				}
				note("list element " + loc)
			} else {
				a.keepObjs(v, a.p)
				w := a.wholes(v, a.p)
				if add(w); w != v {
					note("list alternative " + loc + " " + descr(v))
				}
			}
		}
		pos = Add(pos, g.A[0])
	}
	pos = Int(0)
	for _, g := range s {
		for _, v := range g.A[1:] {
			if g.S == "el" {
				x := a.wholes(a.manyify(v, pos, a.s), a.s)
				if pos.Op != OInt {
					better(x)
				}
				if add(x) {
					if pos == Int(0) {
						a.e.guessed[guess(x)] = true
					}
					note("list alternative " + loc + " " + descr(v))
				} else if pos != Int(0) {
					delete(a.e.guessed, guess(x))
				}
				continue
			}
			a.keepObjs(v, a.s)
			if add(a.wholes(v, a.s)) {
				note("list alternative " + loc + " " + descr(v))
			}
		}
		pos = Add(pos, g.A[0])
	}
	alts = a.fewAlts(alts, loc)
	same := len(p) == 1 && p[0].S == "star" && len(p[0].A) == len(alts)+1
	for i, v := range alts {
		same = same && p[0].A[1+i] == v
	}
	if !same {
		for _, w := range notes {
			a.change(w)
		}
	}
	return starSeg(n, alts)
}

const maxAlike = 4

// fewAlts merges the alternatives of a list that differ only in the values
// they are made of when there are too many of them.
func (a *generaliser) fewAlts(alts []*V, loc string) []*V {
	if len(alts) <= 1 {
		return alts
	}
	type kind struct {
		any *V
		n   int
	}
	kinds := map[*V]*kind{}
	of := make([]*kind, len(alts))
	for i, v := range alts {
		skel, syms := skeleton(v)
		if skel == nil || len(syms) == 0 {
			continue
		}
		k := kinds[skel]
		if k == nil {
			// the same each time
			by := map[*V]*V{}
			for j, x := range syms {
				key := fmt.Sprintf("alike:%s:%s:%d:%d", a.hk, loc, skel.id, j)
				m, ok := symByKey[key]
				if !ok {
					m = newSym(symOf(x).origin, symOf(x).typ)
					symOf(m).many = true
					symByKey[key] = m
				}
				by[x] = m
			}
			k = &kind{any: subst(v, func(y *V) *V { return by[y] })}
			kinds[skel] = k
		}
		of[i] = k
		k.n++
		if v == k.any {
			k.n = maxAlike + 1
		}
	}
	var out []*V
	done := map[*kind]bool{}
	for i, v := range alts {
		k := of[i]
		if k == nil || k.n <= maxAlike {
			out = append(out, v)
			continue
		}
		if !done[k] {
			done[k] = true
			out = append(out, k.any)
		}
	}
	return out
}

// skeleton gives a value with its symbols replaced by placeholders, and the
// symbols.
func skeleton(v *V) (*V, []*V) {
	ok := true
	var syms []*V
	seen := map[*V]*V{}
	sk := subst(v, func(x *V) *V {
		if x.Obj != 0 || x.Fn != nil {
			ok = false
		}
		if x.Op != OSym || x == vIdx || symOf(x).perm && !symOf(x).many {
			return nil
		}
		if symOf(x).watched {
			ok = false
			return nil
		}
		if seen[x] == nil {
			seen[x] = App("placeholder", Int(int64(len(syms))))
			syms = append(syms, x)
		}
		return seen[x]
	})
	if !ok {
		return nil, nil
	}
	return sk, syms
}

// sameObjs: what a value of both states refers to is the same in both.
func (a *generaliser) sameObjs(v *V) bool {
	seen := map[ObjID]bool{}
	var same func(v *V) bool
	same = func(v *V) bool {
		ok := true
		walk(v, func(x *V) {
			if x.Obj == 0 || seen[x.Obj] || !ok {
				return
			}
			seen[x.Obj] = true
			p, s := a.p.heap[x.Obj], a.s.heap[x.Obj]
			if p == s {
				return
			}
			if p == nil || s == nil || p.Val != s.Val || !sameSegs(p.Segs, s.Segs) || len(p.Attrs) != len(s.Attrs) {
				ok = false
				return
			}
			for n, y := range p.Attrs {
				if s.Attrs[n] != y {
					ok = false
					return
				}
			}
			s.eachVal(func(y *V) { ok = ok && !a.hasBindable(y) && same(y) })
		})
		return ok
	}
	return same(v)
}

// shared is an object that exists in both states, perhaps with different contents.
func (a *generaliser) shared(id ObjID) ObjID {
	return a.auObj(id, id, "shared:"+objNames[id])
}

// wholes makes slices of all of a byte string follow its generalised content.
func (a *generaliser) wholes(v *V, from *State) *V {
	return subst(v, func(x *V) *V {
		if x.Op != OSlice || x.Obj == 0 || x.A[0] != Int(0) {
			return nil
		}
		o, g := from.heap[x.Obj], a.g.heap[x.Obj]
		if o == nil || g == nil || o == g || !o.Bytes || o.Many || g.Many {
			return nil
		}
		n := g.Len()
		if n == x.A[1] || x.A[1] != o.Len() && !from.eq(x.A[1], o.Len()) {
			return nil
		}
		return SliceV(x.Obj, x.A[0], n, n, x.A[3])
	})
}

// keepObjs copies the objects a value refers to into the result.
func (a *generaliser) keepObjs(v *V, from *State) {
	walk(v, func(x *V) {
		if x.Obj != 0 && a.p.heap[x.Obj] != nil && a.s.heap[x.Obj] != nil && !a.p.heap[x.Obj].Many && !a.s.heap[x.Obj].Many {
			a.shared(x.Obj)
			return
		}
		if x.Obj != 0 && a.g.heap[x.Obj] == nil {
			if o := from.heap[x.Obj]; o != nil {
				if p, s := a.p.heap[x.Obj], a.s.heap[x.Obj]; p != nil && s != nil && p.Many && s.Many && !sameSegs(p.Segs, s.Segs) && s.isOverwritten() {
					o = s
					a.change("memory of an element " + objNames[x.Obj])
				} else if p != nil && p.isOverwritten() {
					o = p
				}
				a.g.heap[x.Obj] = o
				o.eachVal(func(y *V) { a.keepObjs(y, from) })
			}
		}
	})
}

func (a *generaliser) manySym(x *V) *V {
	k := fmt.Sprintf("many:%d", x.N)
	v, ok := symByKey[k]
	if !ok {
		old := *symOf(x)
		v = newSym(old.origin, old.typ)
		i := symOf(v)
		*i = old
		i.many = true
		i.key = ""
		i.head = ""
		i.gen = false
		symByKey[k] = v
	}
	return v
}

// atRoot gives the many symbol a term is an instance of.
func atRoot(x *V) *V {
	for x.Op == OApp && x.S == "at" {
		x = x.A[0]
	}
	if x.Op == OSym && symOf(x).many {
		return x
	}
	return nil
}

// pickSym stands for the instances of a many symbol that the iterations of a
// loop picked.
func (a *generaliser) pickSym(x *V) *V {
	root := x.N
	if r := symOf(x).root; r != 0 {
		root = r
	}
	k := fmt.Sprintf("pick:%d:%s", root, a.id)
	v, ok := symByKey[k]
	if !ok {
		old := *symOf(x)
		v = newSym(old.origin, old.typ)
		i := symOf(v)
		*i = old
		i.many = true
		i.root = root
		i.key = ""
		i.head = ""
		i.gen = false
		symByKey[k] = v
	}
	return v
}

// manyify turns the element at position pos into an alternative of a star.
func (a *generaliser) manyify(v *V, pos *V, from *State) *V {
	repl := map[*V]*V{}
	var conv func(v *V) *V
	var convObj func(id ObjID) ObjID
	isNew := func(x *V) bool {
		if symOf(x).perm || symOf(x).many || x == vIdx {
			return false
		}
		if symOf(x).head == a.id || a.inLoop(symOf(x).key) {
			return true
		}
		return from == a.s && !a.pSyms[x.N]
	}
	conv = func(v *V) *V {
		return subst(v, func(x *V) *V {
			switch x.Op {
			case OApp:
				if len(x.A) == 2 && (x.S == "elem" || x.S == "mapkey" || x.S == "mapval" || x.S == "at" || x.S == "rune") {
					d := from.rw(Sub(x.A[1], pos))
					if d.Op == OInt {
						return mkApp(x.S, []*V{conv(x.A[0]), AddN(vIdx, d.N)})
					}
					for c := int64(2); c <= 4 && pos.Op != OInt; c++ {
						if d := from.rw(Sub(x.A[1], MulN(pos, c))); d.Op == OInt {
							return mkApp(x.S, []*V{conv(x.A[0]), AddN(MulN(vIdx, c), d.N)})
						}
					}
					if r := atRoot(x); r != nil {
						// an element of some other list
						m := a.pickSym(r)
						repl[r] = m
						a.many[m] = true
						return m
					}
				}
			case OSym:
				if isNew(x) {
					m := a.manySym(x)
					repl[x] = m
					a.many[m] = true
					return m
				}
			case OSlice, OPtr, ORef:
				if x.Obj != 0 {
					if y := a.partOf(x, from, convObj); y != nil {
						n := y.Obj
						return SliceV(n, Int(0), conv(x.A[1]), conv(x.A[2]), conv(x.A[3]))
					}
					if n := convObj(x.Obj); n != x.Obj {
						y := *x
						y.Obj = n
						y.A = make([]*V, len(x.A))
						for i, e := range x.A {
							y.A[i] = conv(e)
						}
						return intern(&y)
					}
				}
			}
			return nil
		})
	}
	convObj = func(id ObjID) ObjID {
		o := from.heap[id]
		if o == nil {
			return id
		}
		if o.Many {
			a.keepObjs(Ref(id), from)
			return id
		}
		name := objNames[id]
		if m := o.Attrs["memo"]; m != nil && o.Attrs["dirty"] == nil && strings.Contains(name, ":") {
			// the contents of a term: those of the converted term
			t := conv(m)
			if t == m {
				a.keepObjs(Ref(id), from)
				return id
			}
			n := objID(fmt.Sprintf("%s:%d", name[:strings.Index(name, ":")], t.id))
			if a.g.heap[n] == nil {
				c := o.clone()
				c.ID = n
				c.Many = true
				if c.Val != nil {
					c.Val = conv(c.Val)
				}
				segs := make([]*V, len(c.Segs))
				for i, g := range c.Segs {
					segs[i] = conv(g)
				}
				c.Segs = segs
				for k, x := range c.Attrs {
					c.Attrs[k] = conv(x)
				}
				a.g.heap[n] = c
				a.g.own[n] = true
			}
			return n
		}
		mine := a.isGenObj(id) || a.inLoop(objNames[id])
		if !mine && a.p.heap[id] != nil && from == a.s && !strings.HasPrefix(objNames[id], "inst:") {
			// shared by the iterations
			return a.shared(id)
		}
		if from == a.p && !mine {
			// an element built before the loop
			if a.s.heap[id] != nil {
				return a.shared(id)
			}
		}
		part := a.part
		a.part = nil
		if n, ok := a.manyO[id]; ok && part == nil {
			return n
		}
		n := objID(fmt.Sprintf("many:%s", objNames[id]))
		if o.Bytes && o.Val == nil {
			// one object for each content
			old := o.Segs
			if part != nil {
				old = part
			}
			segs := make([]*V, len(old))
			for i, g := range old {
				segs[i] = conv(g)
			}
			n = a.manyBytes(objNames[id], segs)
		}
		a.manyO[id] = n
		c := o.clone()
		if part != nil {
			c.Segs = part
		}
		c.ID = n
		c.Many = true
		delete(c.Attrs, "child")
		delete(c.Attrs, "childat")
		delete(c.Attrs, "childbase")
		delete(c.Attrs, "mirror")
		if c.Val != nil {
			c.Val = conv(c.Val)
		}
		segs := make([]*V, len(c.Segs))
		for i, g := range c.Segs {
			segs[i] = conv(g)
		}
		c.Segs = segs
		for k, x := range c.Attrs {
			c.Attrs[k] = conv(x)
		}
		if old := a.p.heap[n]; old != nil && old.isOverwritten() {
			c.Segs = old.Segs
		} else if x := a.s.heap[n]; x != nil && x.isOverwritten() {
			c.Segs = x.Segs
			a.change("contents of " + objNames[n])
		} else if old != nil {
			if old.Val != c.Val || !sameSegs(old.Segs, c.Segs) {
				if old.Val != nil && old.Val != c.Val {
					c.Val = a.e.blur(a.g, old.Val, c.Val, objNames[n])
				}
				if !sameSegs(old.Segs, c.Segs) {
					x := a.manySym(a.newGen("blur"+objNames[n], "element"))
					k := "lazy"
					if c.Bytes {
						k = "op"
					}
					c.Segs = []*V{Seg(k, App("len", x), x, Int(0))}
				}
				if old.Val != c.Val || !sameSegs(old.Segs, c.Segs) {
					a.change("contents of " + objNames[n])
				}
			}
		}
		a.g.heap[n] = c
		a.g.own[n] = true
		return n
	}
	r := conv(v)
	// what is known about the replaced symbols
	if len(repl) > 0 {
		sub := func(x *V) *V {
			return subst(x, func(y *V) *V { return repl[y] })
		}
		touches := func(x *V) bool {
			t := false
			walk(x, func(y *V) {
				if repl[y] != nil {
					t = true
				}
			})
			return t
		}
		for f, b := range from.facts {
			if touches(f) {
				a.manyF[sub(f)] = true
				a.manyB[sub(f)] = b
			}
		}
		for _, l := range from.lins {
			if touches(l) {
				a.manyF[GE(sub(l))] = true
				a.manyB[GE(sub(l))] = true
			}
		}
		for x, m := range repl {
			if symOf(x).nonnil {
				symOf(m).nonnil = true
			}
		}
	}
	return r
}

// manyBytes finds the object that stands for the byte strings made at one
// place with the given content.
func (a *generaliser) manyBytes(name string, segs []*V) ObjID {
	if i := strings.LastIndex(name, "~"); i > 0 {
		name = name[:i]
	}
	for k := 0; k < 6; k++ {
		n := objID(fmt.Sprintf("many:%s~%d", name, k))
		ok := true
		for _, h := range []map[ObjID]*Obj{a.g.heap, a.p.heap, a.s.heap} {
			if o := h[n]; o != nil && !sameSegs(o.Segs, segs) {
				ok = false
			}
		}
		if ok {
			return n
		}
	}
	return objID("many:" + name)
}

// blur forgets where two contents of a many object differ.
func (e *Engine) blur(g *State, x, y *V, key string) *V {
	if x == y {
		return x
	}
	if x.Op == OStruct && y.Op == OStruct && len(x.A) == len(y.A) {
		na := make([]*V, len(x.A))
		for i := range x.A {
			na[i] = e.blur(g, x.A[i], y.A[i], key+"."+strconv.Itoa(i))
		}
		return Struct(x.T, na)
	}
	k := "blur:" + key
	v, ok := symByKey[k]
	if !ok {
		v = newSym("element", nil)
		symOf(v).many = true
		symByKey[k] = v
	}
	return v
}

func sameSegs(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// closeHeap copies objects that are referred to but were not paired.
func (a *generaliser) closeHeap() {
	g := a.g
	for again := true; again; {
		again = false
		var need []ObjID
		look := func(v *V) {
			walk(v, func(x *V) {
				if x.Obj != 0 && x.Op != OApp && g.heap[x.Obj] == nil {
					need = append(need, x.Obj)
				}
			})
		}
		g.eachRoot(func(_ string, v *V) { look(v) })
		for _, o := range g.heap {
			o.eachVal(look)
		}
		for _, id := range need {
			if g.heap[id] != nil {
				continue
			}
			if o := a.s.heap[id]; o != nil {
				g.heap[id] = o
				again = true
			} else if o := a.p.heap[id]; o != nil {
				g.heap[id] = o
				again = true
			}
		}
	}
}

// facts keeps what both states know.
func (a *generaliser) facts() {
	p, s, g := a.p, a.s, a.g
	sub := func(v *V) (*V, bool) {
		ok := true
		r := subst(v, func(x *V) *V {
			if a.bindable(x) {
				if b := a.bind[x]; b != nil {
					return b
				}
				ok = false
			}
			return nil
		})
		return r, ok
	}
	manyOf := func(v *V) bool {
		m := false
		walk(v, func(x *V) {
			if a.many[x] {
				m = true
			}
		})
		return m
	}
	liveMany := func(v *V) bool { // many symbols the pattern already had
		m := false
		walk(v, func(x *V) {
			if a.many[x] && a.pSyms[x.N] {
				m = true
			}
		})
		return m
	}
	// what is known about elements the new state has none of stays known
	sSyms := map[int64]bool{}
	occurs := func(v *V) {
		walk(v, func(x *V) {
			if x.Op == OSym {
				sSyms[x.N] = true
			}
		})
	}
	s.eachRoot(func(_ string, v *V) { occurs(v) })
	for _, o := range s.heap {
		o.eachVal(occurs)
	}
	vacuous := func(v *V) bool {
		m := false
		walk(v, func(x *V) {
			if x.Op == OSym && symOf(x).many && !sSyms[x.N] && !a.many[x] {
				m = true
			}
		})
		return m
	}
	g.facts = map[*V]bool{}
	g.lins = nil
	g.eqs = nil
	keep := func(f *V, b bool) {
		if f.Op == OGE {
			if b {
				g.addGE(f.A[0])
			}
			return
		}
		g.facts[f] = b
	}
	for f, b := range p.facts {
		if manyOf(f) {
			if a.manyF[f] && a.manyB[f] == b {
				keep(f, b)
			} else {
				a.change("fact " + descr(f))
			}
			continue
		}
		if vacuous(f) {
			keep(f, b)
		} else if fs, ok := sub(f); ok && s.truth(fs) == b2i(b) {
			keep(f, b)
		} else {
			a.changeFact(f)
		}
	}
	for _, l := range p.lins {
		if manyOf(l) {
			if a.manyF[GE(l)] {
				g.addGE(l)
			} else {
				a.changeFact(l)
			}
			continue
		}
		if vacuous(l) {
			g.addGE(l)
		} else if fs, ok := sub(l); ok && s.proveGE(fs) {
			g.addGE(l)
		} else {
			a.changeFact(l)
		}
	}
	for _, q := range p.eqs {
		d, ok := sub(Sub(q.atom, q.val))
		if ok && s.truth(Eq0(d)) == 1 {
			g.eqs = append(g.eqs, q)
		} else {
			a.changeFact(q.atom)
		}
	}
	for f, b := range a.manyB {
		if !liveMany(f) {
			keep(f, b)
		}
	}
	// facts about the new symbols
	if len(a.news) == 0 && !a.changed {
		return
	}
	inP, inS := map[*V]*V{}, map[*V]*V{}
	for _, n := range a.news {
		inP[n.gv] = n.pv
		inS[n.gv] = n.sv
	}
	val := func(m map[*V]*V, bindings bool, v *V) (*V, bool) {
		ok := true
		r := subst(v, func(x *V) *V {
			if y := m[x]; y != nil {
				return y
			}
			if bindings && a.bindable(x) {
				if b := a.bind[x]; b != nil {
					return b
				}
				ok = false
			}
			return nil
		})
		return r, ok
	}
	holds := func(f *V, b bool) bool {
		if f.Op == OBool {
			return false
		}
		x, ok := val(inP, false, f)
		if !ok || p.truth(x) != b2i(b) {
			return false
		}
		y, ok := val(inS, true, f)
		return ok && s.truth(y) == b2i(b)
	}
	try := func(f *V, b bool) {
		if holds(f, b) {
			keep(f, b)
		}
	}
	for _, n := range a.news {
		try(isNilTermS(n.gv), false)
		for _, pr := range []struct {
			st *State
			v  *V
		}{{p, n.pv}, {s, n.sv}} {
			if !isAtom(pr.v) {
				continue
			}
			ren := func(x *V) *V {
				return subst(x, func(y *V) *V {
					if y == pr.v {
						return n.gv
					}
					return nil
				})
			}
			for f, b := range pr.st.facts {
				if contains(f, pr.v) {
					try(ren(f), b)
				}
			}
			for _, l := range pr.st.lins {
				if contains(l, pr.v) {
					try(GE(ren(l)), true)
				}
			}
		}
	}
	// bounds of integers
	lens := map[*V]bool{}
	look := func(v *V) {
		walk(v, func(x *V) {
			if x.Op == OApp && (x.S == "len" || x.S == "runecount" || x.S == "div2" || x.S == "count") || x.Op == OSym && symOf(x).nonneg {
				if !contains(x, vIdx) {
					lens[x] = true
				}
			}
			if x.Op == OSlice {
				lens[x.A[1]] = true
			}
		})
	}
	g.eachRoot(func(_ string, v *V) { look(v) })
	for _, o := range g.heap {
		o.eachVal(look)
		if o.Kind == KArr {
			lens[o.Len()] = true
		}
	}
	for _, q := range g.eqs {
		look(q.val)
	}
	seen := map[*V]bool{}
	var gvs []*V
	for _, n := range append(a.ints, a.news...) {
		if n.gv.Op == OInt || seen[n.gv] || !a.hasBindable(n.gv) || n.gv.Op != OLin && n.gv.Op != OSym {
			continue
		}
		seen[n.gv] = true
		gvs = append(gvs, n.gv)
	}
	a.allFacts(try)
	a.keptAll(try)
	a.watchBounds(gvs, try)
	for _, n := range a.news {
		// not below, or not above, where it started
		if c, ok := isInt(n.pv); ok && n.gv.Op == OSym {
			try(GE(AddN(n.gv, -c)), true)
			try(GE(AddN(MulN(n.gv, -1), c)), true)
		}
	}
	for _, x := range gvs {
		try(GE(x), true)
		try(GE(AddN(x, 1)), true)
		for l := range lens {
			if l != x {
				try(GE(Sub(l, x)), true)
			}
		}
		for _, y := range gvs {
			if x != y {
				try(GE(Sub(x, y)), true)
			}
		}
	}
	a.sumFacts(holds)
}

// sumFacts looks for numbers that are the sum of the lengths of the first
// parts of a list.
func (a *generaliser) sumFacts(holds func(f *V, b bool) bool) {
	for _, b := range a.sums {
		if b.gv.Op != OLin && b.gv.Op != OSym || !a.hasBindable(b.gv) {
			continue
		}
		same := func(x, p, s *V) {
			d := a.p.rw(Sub(p, b.pv))
			if d.Op != OInt || x == b.gv {
				return
			}
			if a.s.rw(Sub(s, b.sv)) != d && !a.s.eq(Sub(s, b.sv), d) {
				return
			}
			y := a.g.rw(Sub(x, AddN(b.gv, d.N)))
			if y.Op != OLin || !holds(GE(y), true) || !holds(GE(MulN(y, -1)), true) {
				return
			}
			_, as, cs := linParts(y)
			// the one that is met last when states are compared
			for k := len(a.news) - 1; k >= 0; k-- {
				z := a.news[k].gv
				for i := range as {
					if as[i] == z && cs[i]*cs[i] == 1 && z.Op == OSym && !symOf(z).nonneg && !containsInOthers(as, i) {
						a.g.eqs = append(a.g.eqs, eqn{z, linComb(linComb(y, 1, z, -cs[i]), -cs[i], Int(0), 0)})
						a.g.renorm()
						return
					}
				}
			}
			a.g.addGE(y)
			a.g.addGE(MulN(y, -1))
		}
		if !a.hasBindable(b.pv) {
			same(b.pv, b.pv, b.pv)
		}
		for _, n := range append(a.ints, a.news...) {
			if n.gv.Op == OLin || n.gv.Op == OSym {
				same(n.gv, n.pv, n.sv)
			}
		}
	}
}

// allFacts looks for what the iterations so far established for every element
// of a list.
func (a *generaliser) allFacts(try func(f *V, b bool)) {
	s := a.s
	type cand struct {
		f *V
		b bool
	}
	var fs []cand
	add := func(f *V, b bool) {
		has := false
		f = wholeHalves(f)
		walk(f, func(x *V) {
			if x.Op == OApp && x.S == "elem" {
				has = true
			}
		})
		if has && !contains(f, vIdx) {
			fs = append(fs, cand{f, b})
		}
	}
	for f, b := range s.facts {
		add(f, b)
	}
	for _, l := range s.lins {
		add(GE(l), true)
	}
	for _, q := range s.eqs {
		add(Eq0(Sub(q.atom, q.val)), true)
		if q.val == Int(0) || q.val == Int(1) {
			add(Eq0(q.atom), q.val == Int(0))
		}
	}
	if len(fs) == 0 {
		return
	}
	seen := map[*V]bool{}
	for _, n := range a.ints {
		if seen[n.gv] || n.gv.Op == OInt || !a.hasBindable(n.gv) || Sub(n.sv, n.pv) != Int(1) && a.bindStep(n.gv) != 1 {
			continue
		}
		seen[n.gv] = true
		for _, c := range fs {
			done := map[*V]bool{}
			walk(c.f, func(x *V) {
				if x.Op != OApp || x.S != "elem" || done[x] {
					return
				}
				done[x] = true
				d := AddN(Sub(x.A[1], n.sv), 1)
				if k, ok := isInt(d); ok && k != 0 && k != 1 && (!s.watching() || k < -3 || k > 0) {
					return
				} else if !ok && (!s.watching() || a.hasBindable(d) || !permOnly(d)) {
					return
				}
				f := subst(c.f, func(y *V) *V {
					if y == x {
						return App("elem", x.A[0], vIdx)
					}
					return nil
				})
				if !c.b {
					f = Not(f)
				}
				if a.hasBindable(f) || contains(f, n.gv) {
					return
				}
				try(App("all", Add(n.gv, d), f), true)
			})
		}
	}
}

// keptAll offers what each state knows of all elements of a list, with the
// number of elements given by a length that stays the same.
func (a *generaliser) keptAll(try func(f *V, b bool)) {
	if !a.s.watching() {
		return
	}
	for _, st := range []*State{a.p, a.s} {
		for f, b := range st.facts {
			if !b || f.Op != OApp || f.S != "all" || a.hasBindable(f.A[1]) {
				continue
			}
			if !a.hasBindable(f) && f.A[0].Op != OInt {
				try(f, true)
			}
			for _, q := range st.eqs {
				if t := q.atom; t.Op == OApp && t.S == "len" && t.A[0].Op == OSym && symOf(t.A[0]).perm {
					if d, ok := isInt(Sub(f.A[0], st.rw(t))); ok && d > -3 && d < 3 {
						try(App("all", AddN(t, d), f.A[1]), true)
					}
				}
			}
		}
	}
}

// permOnly: the value stays the same for the whole run.
func permOnly(v *V) bool {
	ok := true
	walk(v, func(x *V) {
		if x.Op == OSym && (!symOf(x).perm || symOf(x).gen || symOf(x).many) {
			ok = false
		}
	})
	return ok
}

// wholeHalves speaks of halves by what they are the half of.
func wholeHalves(f *V) *V {
	return subst(f, func(x *V) *V {
		if x.Op == OSym && x.N < int64(len(symTab)) && symOf(x).origin == "half" {
			return App("div2", halved[x])
		}
		if x.Op == OApp && x.S == "half" {
			return App("div2", App("len", x.A[0]))
		}
		return nil
	})
}

// bindStep is how much a generalised integer grew in this iteration.
func (a *generaliser) bindStep(gv *V) int64 {
	_, as, cs := linParts(gv)
	for i, x := range as {
		if a.bindable(x) && len(as) == 1 {
			if b := a.bind[x]; b != nil {
				if d, ok := isInt(Sub(b, x)); ok {
					return d * cs[i]
				}
			}
		}
	}
	return 0
}

func (a *generaliser) changeFact(f *V) {
	// losing a fact about symbols that are gone does not matter
	live := false
	has := false
	walk(f, func(x *V) {
		if x.Op == OSym {
			has = true
			live = true
		}
	})
	if live || !has {
		a.change("fact " + descr(f))
	}
}

// openFlag is a field of a modified object whose truth is not known.
type openFlag struct {
	id   ObjID
	path []*V
	cond *V
}

// openBool finds a flag; the states in which it is set and not set are kept
// apart at loop heads.
func (s *State) openBool() *openFlag {
	var ids []int
	for id, o := range s.heap {
		if o.Kind == KCell && o.Attrs["dirty"] != nil && o.Val != nil && o.T != nil && !o.Many && strings.Contains(typeKey(o.T), modPath) {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[ObjID(id)]
		st := structOf(o.T)
		if st == nil || o.Val.Op != OStruct {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := under(st.Field(i).Type()).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				v := o.Val.A[i]
				if v.Op != OBool && v.Op != OSym {
					return &openFlag{ObjID(id), []*V{Fld(i)}, v}
				}
			}
		}
	}
	return nil
}

func (s *State) settleBool(u *openFlag, v bool) bool {
	if !s.assume(u.cond, v) {
		return false
	}
	o := s.mut(u.id)
	x := vFalse
	if v {
		x = vTrue
	}
	o.Val = s.update(o.Val, u.path, o.T, x)
	return true
}

func fnv32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// widened tells whether some loop was analysed by an invariant.
func (e *Engine) widened() bool {
	for _, h := range e.heads {
		if h.gens > 0 {
			return true
		}
	}
	return false
}
