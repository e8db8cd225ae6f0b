package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KCell Kind = iota // Val
	KArr              // Segs, elements of type Elem
	KMap              // Segs of (key,val) tuples
	KChan             // Attrs
	KRes              // engine handle, Attrs only
)

type Obj struct {
	ID     ObjID
	Kind   Kind
	Val    *V
	Segs   []*V
	T      types.Type // cell: type of Val; arr: element type; map: map type; res: named type
	Bytes  bool       // KArr of bytes
	Region string     // fresh, ext:<what>, store:<what>, iter:<what>, global
	Many   bool
	Attrs  map[string]*V
	Site   token.Pos
}

func (o *Obj) clone() *Obj {
	n := *o
	n.Attrs = make(map[string]*V, len(o.Attrs))
	for k, v := range o.Attrs {
		n.Attrs[k] = v
	}
	return &n
}

func (o *Obj) Len() *V { return segsLen(o.Segs) }

type Deferred struct {
	instr *ssa.Defer
	fn    *V // callee value, or nil for a static/invoke call
	args  []*V
}

type loopInst struct {
	head    *ssa.BasicBlock
	hk      string // pattern key, empty while unrolled
	ver     int
	unroll  int
	counted bool // an exit test compared other constants than in the previous iteration
	tests   []loopTest
}

type loopTest struct {
	ins  *ssa.If
	x, y *V
}

type exitInst struct {
	hk  string
	ver int
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	env     []*V
	defers  []Deferred
	ctx     string // call sites leading here
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	loops   []loopInst
	client  bool
	defcall bool                                         // called by RunDefers of the frame below
	cont    func(e *Engine, s *State, res []*V) []*State // called instead of assigning the result
	contKey string
	args    []*V // of a modelled call that continues through cont
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]*V(nil), f.env...)
	n.defers = append([]Deferred(nil), f.defers...)
	n.loops = append([]loopInst(nil), f.loops...)
	return &n
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	msg  string
	n    int
}

type State struct {
	e      *Engine
	heap   map[ObjID]*Obj
	own    map[ObjID]bool
	frames []*Frame
	facts  map[*V]bool // atoms (OApp/OSym/OEq0 bools)
	lins   []*V        // e >= 0
	eqs    []eqn       // rewriting of atoms
	ghost  map[string]*V
	locks  map[string]int // location -> count (negative: shared)
	memo   map[string]ObjID
	trace  *Trace
	exits  []exitInst
	atHead string // the pattern it is the start of
	symN   map[string]int
}

type eqn struct{ atom, val *V }

func newState(e *Engine) *State {
	return &State{e: e, heap: map[ObjID]*Obj{}, own: map[ObjID]bool{}, facts: map[*V]bool{}, ghost: map[string]*V{}, locks: map[string]int{}, memo: map[string]ObjID{}, symN: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{e: s.e, trace: s.trace}
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.own = map[ObjID]bool{}
	s.own = map[ObjID]bool{}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.facts = make(map[*V]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.lins = append([]*V(nil), s.lins...)
	n.eqs = append([]eqn(nil), s.eqs...)
	n.ghost = make(map[string]*V, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.locks = make(map[string]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.memo = make(map[string]ObjID, len(s.memo))
	for k, v := range s.memo {
		n.memo[k] = v
	}
	n.exits = append([]exitInst(nil), s.exits...)
	n.symN = make(map[string]int, len(s.symN))
	for k, v := range s.symN {
		n.symN[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, msg string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{prev: s.trace, pos: pos, msg: msg, n: n}
}

// ---- objects ----

var (
	objNames = []string{""}
	objByKey = map[string]ObjID{}
	symByKey = map[string]*V{}
)

func objID(key string) ObjID {
	id, ok := objByKey[key]
	if !ok {
		id = ObjID(len(objNames))
		objNames = append(objNames, key)
		objByKey[key] = id
	}
	return id
}

// newObjAt makes an object named after the place that creates it; n
// distinguishes the objects of one place that are alive at the same time.
func (s *State) newObjAt(key string, k Kind, t types.Type, region string, pos token.Pos) *Obj {
	var id ObjID
	for n := 0; ; n++ {
		id = objID(key + "#" + strconv.Itoa(n))
		if s.heap[id] == nil {
			break
		}
	}
	return s.putObj(id, k, t, region, pos)
}

func (s *State) putObj(id ObjID, k Kind, t types.Type, region string, pos token.Pos) *Obj {
	o := &Obj{ID: id, Kind: k, T: t, Region: region, Attrs: map[string]*V{}, Site: pos}
	s.heap[id] = o
	s.own[id] = true
	return o
}

// here names the current program point.
func (s *State) here() string {
	f := s.top()
	return f.ctx + "@" + strconv.Itoa(f.blk.Index) + "." + strconv.Itoa(f.pc)
}

func (s *State) newObj(k Kind, t types.Type, region string) *Obj {
	return s.newObjAt(s.here(), k, t, region, s.e.pos(s))
}

// sym makes a symbol named after the place that creates it.
func (s *State) sym(origin string, t types.Type) *V {
	return s.symAt(s.here(), origin, "", t)
}

func (s *State) symRegion(origin, region string, t types.Type) *V {
	return s.symAt(s.here(), origin, region, t)
}

func (s *State) symAt(at, origin, region string, t types.Type) *V {
	k := at + "/" + origin
	n := s.symN[k]
	s.symN[k] = n + 1
	kk := k + "#" + strconv.Itoa(n)
	if v, ok := symByKey[kk]; ok {
		return v
	}
	v := newSym(origin, t)
	i := symOf(v)
	i.region = region
	i.key = k
	i.n = n
	symByKey[kk] = v
	return v
}

func (s *State) obj(id ObjID) *Obj {
	o := s.heap[id]
	if o == nil {
		panic(fmt.Sprintf("no object o%d", id))
	}
	return o
}

func (s *State) mut(id ObjID) *Obj {
	o := s.obj(id)
	if s.own[id] {
		return o
	}
	o = o.clone()
	s.heap[id] = o
	s.own[id] = true
	return o
}

func (s *State) attr(id ObjID, k string) *V {
	if o := s.heap[id]; o != nil {
		return o.Attrs[k]
	}
	return nil
}

func (s *State) attrIs(id ObjID, k, val string) bool {
	v := s.attr(id, k)
	return v != nil && v.Op == OFloat && v.S == val
}

func (s *State) attrStr(id ObjID, k string) string {
	v := s.attr(id, k)
	if v == nil || v.Op != OFloat {
		return ""
	}
	return v.S
}

func (s *State) setAttr(id ObjID, k string, v *V) {
	o := s.mut(id)
	if v == nil {
		delete(o.Attrs, k)
	} else {
		o.Attrs[k] = v
	}
}

func (s *State) setAttrS(id ObjID, k, v string) { s.setAttr(id, k, Float(v)) }

// ---- facts ----

func (s *State) rw(v *V) *V {
	if len(s.eqs) == 0 {
		return v
	}
	for i := 0; i < 4; i++ {
		n := subst(v, func(x *V) *V {
			if isAtom(x) {
				for _, e := range s.eqs {
					if e.atom == x {
						return e.val
					}
				}
			}
			if x.Op == OSeg && x.S == "op" && x.A[2] == Int(0) && isAtom(x.A[1]) && x.A[0] == App("len", x.A[1]) {
				// all of a content keeps its own length
				for _, e := range s.eqs {
					if e.atom == x.A[0] && e.val.Op != OInt {
						if y := s.rw(x.A[1]); isAtom(y) {
							return Seg("op", App("len", y), y, Int(0))
						}
					}
				}
			}
			return nil
		})
		if n == v {
			break
		}
		v = n
	}
	return v
}

func nonneg(a *V) bool {
	switch a.Op {
	case OSym:
		return symOf(a).nonneg
	case OApp:
		switch a.S {
		case "len", "cap", "level", "count", "conv:uint8", "conv:uint16", "conv:uint32", "mod2", "div2", "half":
			return true
		case "at":
			return nonneg(a.A[0])
		case "quo", "rem":
			n, ok := isInt(a.A[1])
			return ok && n > 0 && lb(a.A[0])
		}
	}
	return false
}

// lb reports whether e >= 0 follows from the signs of its atoms.
func lb(e *V) bool {
	n, as, cs := linParts(e)
	if n < 0 {
		return false
	}
	for i, a := range as {
		if cs[i] < 0 || !nonneg(a) {
			return false
		}
	}
	return true
}

// lbComb tells whether p*e - q*f + k is a sum that cannot be negative.
func lbComb(e *V, p int64, f *V, q, k int64) bool {
	ne, ea, ec := linParts(e)
	nf, fa, fc := linParts(f)
	if p*ne-q*nf+k < 0 {
		return false
	}
	for i, a := range ea {
		c := p * ec[i]
		for j, b := range fa {
			if a == b {
				c -= q * fc[j]
			}
		}
		if c < 0 || c > 0 && !nonneg(a) {
			return false
		}
	}
next:
	for j, b := range fa {
		for _, a := range ea {
			if a == b {
				continue next
			}
		}
		if c := -q * fc[j]; c < 0 || c > 0 && !nonneg(b) {
			return false
		}
	}
	return true
}

func (s *State) proveGE(e *V) bool { return s.prove(normGE(s.rw(e)), 2) }

func (s *State) prove(e *V, depth int) bool {
	if lb(e) {
		return true
	}
	if depth == 0 {
		return false
	}
	_, as, cs := linParts(e)
	for _, f := range s.lins {
		_, fa, fc := linParts(f)
		// use the fact only if it cancels an atom with a negative coefficient, or shares one
		use := false
		for i, a := range as {
			for j, b := range fa {
				if a == b && (cs[i] < 0) == (fc[j] < 0) {
					use = true
				}
			}
		}
		if !use {
			continue
		}
		if depth == 1 {
			if lbComb(e, 1, f, 1, 0) {
				return true
			}
		} else if s.prove(normGE(Sub(e, f)), depth-1) {
			return true
		}
		// the same with multiples that cancel an atom
		for i, a := range as {
			for j, b := range fa {
				if a != b || cs[i] == fc[j] || (cs[i] < 0) != (fc[j] < 0) {
					continue
				}
				g := gcd(cs[i], fc[j])
				p, q := fc[j]/g, cs[i]/g
				if p < 0 {
					p, q = -p, -q
				}
				if depth == 1 {
					if lbComb(e, p, f, q, p-1) {
						return true
					}
				} else if s.prove(normGE(AddN(linComb(e, p, f, -q), p-1)), depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// halfOf is the half of a value known to be even.
func halfOf(x *V) *V {
	if x.Op == OApp && x.S == "len" {
		return App("half", x.A[0])
	}
	h := halves[x]
	if h == nil {
		h = newSym("half", nil)
		i := symOf(h)
		i.nonneg, i.perm = nonneg(x), true
		halves[x] = h
		halved[h] = x
	}
	return h
}

var halves, halved = map[*V]*V{}, map[*V]*V{}

func bindableSym(x *V) bool {
	i := symOf(x)
	return i.gen || i.many
}

func (s *State) eq(a, b *V) bool {
	if a == b {
		return true
	}
	d := s.rw(Sub(a, b))
	if n, ok := isInt(d); ok {
		return n == 0
	}
	if r, ok := s.facts[Eq0(d)]; ok {
		return r
	}
	return s.proveGE(d) && s.proveGE(MulN(d, -1))
}

func (s *State) le(a, b *V) bool { return a == b || s.proveGE(Sub(b, a)) }

// truth evaluates a condition: 1 true, 0 false, -1 unknown.
func (s *State) truth(c *V) int {
	c = s.rw(c)
	switch c.Op {
	case OBool:
		return int(c.N)
	case ONot:
		t := s.truth(c.A[0])
		if t < 0 {
			return t
		}
		return 1 - t
	case OGE:
		if s.proveGE(c.A[0]) {
			return 1
		}
		if s.proveGE(linComb(c.A[0], -1, Int(1), -1)) {
			return 0
		}
		return -1
	case OEq0:
		if b, ok := s.facts[c]; ok {
			return b2i(b)
		}
		e := c.A[0]
		if w := s.ghost["watchkey"]; w != nil {
			if k, as, cs := linParts(e); k == 0 && len(as) == 2 && cs[0]+cs[1] == 0 && cs[0]*cs[0] == 1 {
				if as[0] == w && otherCell(as[1]) || as[1] == w && otherCell(as[0]) {
					return 0
				}
			}
		}
		if s.proveGE(e) && s.proveGE(MulN(e, -1)) {
			return 1
		}
		if s.proveGE(AddN(e, -1)) || s.proveGE(linComb(e, -1, Int(1), -1)) {
			return 0
		}
		return -1
	}
	if b, ok := s.facts[c]; ok {
		return b2i(b)
	}
	// facts about the many elements hold for every instance
	if g := genericOf(c); g != c {
		if b, ok := s.facts[g]; ok {
			return b2i(b)
		}
	}
	if c.Op == OApp {
		return s.appTruth(c)
	}
	return -1
}

func genericOf(c *V) *V {
	return subst(c, func(x *V) *V {
		if x.Op == OApp && x.S == "at" {
			return x.A[0]
		}
		return nil
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// appTruth knows a few laws about boolean applications.
func (s *State) appTruth(c *V) int {
	switch c.S {
	case "all":
		return s.allTruth(c)
	case "validcell":
		return s.validCell(c.A[0])
	case "hasprefix": // content, prefix content
		a, p := c.A[0], c.A[1]
		if len(p.A) == 0 {
			return 1
		}
		if ca, ok := strConst(a); ok {
			if cp, ok := strConst(p); ok {
				return b2i(strings.HasPrefix(ca, cp))
			}
			if len(ca) == 0 && s.proveGE(AddN(strLen(p), -1)) {
				return 0
			}
		}
		if len(a.A) >= len(p.A) {
			same := true
			for i := range p.A {
				if a.A[i] != p.A[i] {
					same = false
					break
				}
			}
			if same {
				return 1
			}
		}
	case "streq":
		// the scenario: the watched ID is found only once
		if w := s.ghost["watchid"]; w != nil {
			a, b := c.A[0] == bytesOf(w), c.A[1] == bytesOf(w)
			if a != b {
				return 0
			}
		}
		// the watched key is the key of one entry only
		if w := s.ghost["watchkey"]; w != nil {
			a, b := c.A[0], c.A[1]
			if b == bytesOf(w) {
				a, b = b, a
			}
			if a == bytesOf(w) && a != b && otherKey(b) {
				return 0
			}
		}
		a, b := c.A[0], c.A[1]
		if a == b {
			return 1
		}
		ca, ok1 := strConst(a)
		cb, ok2 := strConst(b)
		if ok1 && ok2 {
			return b2i(ca == cb)
		}
		d := Sub(strLen(a), strLen(b))
		if s.proveGE(AddN(d, -1)) || s.proveGE(linComb(d, -1, Int(1), -1)) {
			return 0
		}
	case "eq":
		if c.A[0] == c.A[1] {
			return 1
		}
	case "ult":
		if c.A[0] == c.A[1] {
			return 0
		}
		// opposite strict order known
		if b, ok := s.facts[App("ult", c.A[1], c.A[0])]; ok && b {
			return 0
		}
	case "isnil":
		a := c.A[0]
		if !isAtom(a) {
			if t := isNilTerm(a); t != c {
				return s.truth(t)
			}
		}
		if a.Op == OSym && symOf(a).nonnil {
			return 0
		}
		if a.Op == OApp && strings.HasPrefix(a.S, "as:*github.com/golang/protobuf/ptypes/struct.Value_") {
			return 0 // a set value is never a nil wrapper
		}
		if a.Op == OApp && a.S == "at" && a.A[0].Op == OSym && symOf(a.A[0]).nonnil {
			return 0
		}
		if s.proveGE(AddN(App("len", a), -1)) {
			return 0
		}
	}
	return -1
}

// otherKey tells whether a string is the key of another entry than the watched
// one.
func otherKey(v *V) bool {
	x := wholeContent(v)
	if x == nil {
		return false
	}
	for x.Op == OApp && x.S == "at" {
		x = x.A[0]
	}
	return x.Op == OApp && x.S == "mapkey" || x.Op == OSym && (symOf(x).many || symOf(x).gen || symOf(x).watched)
}

// otherCell tells whether a number comes from the elements of a list that are
// not the watched one.
func otherCell(x *V) bool {
	for x.Op == OApp && x.S == "at" {
		x = x.A[0]
	}
	if x.Op == OSym {
		return symOf(x).many || symOf(x).gen
	}
	for x.Op == OApp && x.S == "elem" {
		x = x.A[0]
		if x.Op == OSym {
			return true
		}
	}
	return x.Op == OApp && x.S == "mapkey"
}

// A fact all(n, f) says that condition f holds for all positions from 0 to n;
// f speaks of a position as vIdx.

func (s *State) allTruth(c *V) int {
	n, f := s.rw(c.A[0]), c.A[1]
	if s.proveGE(MulN(n, -1)) {
		return 1
	}
	holds := func(i *V) bool { return s.truth(instAll(f, i)) == 1 }
	if k, ok := isInt(n); ok {
		if k > 4 {
			return -1
		}
		for i := int64(0); i < k; i++ {
			if !holds(Int(i)) {
				return -1
			}
		}
		return 1
	}
	for g, b := range s.facts {
		if !b || g.Op != OApp || g.S != "all" || g.A[1] != f {
			continue
		}
		d := s.rw(Sub(n, g.A[0]))
		if s.proveGE(MulN(d, -1)) {
			return 1
		}
		if k, ok := isInt(d); ok && k <= 2 {
			good := true
			for i := int64(0); i < k && good; i++ {
				good = holds(AddN(g.A[0], i))
			}
			if good {
				return 1
			}
		}
	}
	return -1
}

func instAll(f, i *V) *V {
	return subst(f, func(x *V) *V {
		if x == vIdx {
			return i
		}
		return nil
	})
}

// growAll extends what is known of the first elements of a list by an element
// of which the same is known.
func (s *State) growAll() {
	var add, del []*V
	for g, b := range s.facts {
		if b && g.Op == OApp && g.S == "all" && s.truth(instAll(g.A[1], g.A[0])) == 1 {
			del = append(del, g)
			add = append(add, App("all", AddN(g.A[0], 1), g.A[1]))
		}
	}
	for _, g := range del {
		delete(s.facts, g)
	}
	for _, g := range add {
		s.facts[g] = true
	}
}

// learnElem adds what is known of all elements of a list to an element in use.
func (s *State) learnElem(x *V) {
	k := s.rw(x.A[1])
	var fs []*V
	for g, b := range s.facts {
		if !b || g.Op != OApp || g.S != "all" || !contains(g.A[1], App("elem", x.A[0], vIdx)) || !s.proveGE(k) {
			continue
		}
		n := g.A[0]
		for i := 0; i < 2 && s.truth(instAll(g.A[1], n)) == 1; i++ {
			n = AddN(n, 1)
		}
		if s.proveGE(AddN(Sub(n, k), -1)) {
			fs = append(fs, instAll(g.A[1], k))
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		s.assume(f, true)
	}
}

// assume adds a condition; false means it contradicts what is known.
func (s *State) assume(c *V, b bool) bool {
	c = s.rw(c)
	switch t := s.truth(c); {
	case t >= 0:
		return (t == 1) == b
	}
	if !b {
		c = Not(c)
		if c.Op == ONot {
			s.facts[c.A[0]] = false
			return s.derive(c.A[0], false)
		}
		if c.Op == OBool {
			return c.N == 1
		}
	}
	switch c.Op {
	case ONot:
		s.facts[c.A[0]] = false
		return s.derive(c.A[0], false)
	case OGE:
		e := c.A[0]
		if s.proveGE(MulN(e, -1)) {
			s.addEq(e)
		} else {
			s.addGE(e)
		}
		return s.consistent()
	case OEq0:
		s.addEq(c.A[0])
		return s.consistent()
	default:
		s.facts[c] = true
		return s.derive(c, true)
	}
}

func (s *State) addGE(e *V) {
	e = normGE(e)
	for _, f := range s.lins {
		if f == e {
			return
		}
	}
	s.lins = append(s.lins, e)
}

func (s *State) addEq(e *V) {
	// mod2(x) == 0  =>  x == 2*div2(x)
	n, as, cs := linParts(e)
	if len(as) == 1 && n == 0 && as[0].Op == OApp && as[0].S == "mod2" {
		x := as[0].A[0]
		s.eqs = append(s.eqs, eqn{as[0], Int(0)})
		if x := s.rw(x); isAtom(x) && !(x.Op == OSym && bindableSym(x)) {
			h := halfOf(x)
			s.eqs = append(s.eqs, eqn{x, MulN(h, 2)}, eqn{App("div2", x), h})
			s.renorm()
			return
		}
		s.addEq(Sub(x, MulN(App("div2", x), 2)))
		return
	}
	// rewrite one atom with coefficient +-1, preferring symbols to applications
	best := -1
	for i, a := range as {
		if cs[i] != 1 && cs[i] != -1 {
			continue
		}
		if containsInOthers(as, i) {
			continue
		}
		if best < 0 || rank(a) > rank(as[best]) {
			best = i
		}
	}
	if best >= 0 {
		a := as[best]
		val := linComb(linComb(e, 1, a, -cs[best]), -cs[best], Int(0), 0)
		if !contains(val, a) {
			s.eqs = append(s.eqs, eqn{a, val})
			s.renorm()
			return
		}
	}
	s.addGE(e)
	s.addGE(MulN(e, -1))
}

// wholeContent is the content a string consists of.
func wholeContent(v *V) *V {
	if v.Op == OStr && len(v.A) == 1 {
		if g := v.A[0]; g.S == "op" && g.A[2] == Int(0) && isAtom(g.A[1]) && g.A[0] == App("len", g.A[1]) {
			return g.A[1]
		}
	}
	return nil
}

// newness orders the contents one of which is to replace the other.
func newness(v *V) int {
	if v.Op == OApp && v.S == "at" {
		return 2
	}
	if plainSym(v) {
		return 1
	}
	return 0
}

func plainSym(v *V) bool {
	if v.Op != OSym {
		return false
	}
	i := symOf(v)
	return !i.perm && !i.watched && !i.many && !i.gen
}

func containsInOthers(as []*V, i int) bool {
	for j, b := range as {
		if j != i && contains(b, as[i]) {
			return true
		}
	}
	return false
}

func rank(a *V) int {
	if a.Op == OSym && symOf(a).gen {
		return 3
	}
	if a.Op == OSym {
		return 2
	}
	if a.S == "div2" {
		return 0
	}
	return 1
}

func (s *State) renorm() {
	old := s.lins
	s.lins = nil
	for _, l := range old {
		n := normGE(s.rw(l))
		if n.Op == OInt && n.N >= 0 {
			continue
		}
		s.addGE(n)
	}
	nf := make(map[*V]bool, len(s.facts))
	for f, b := range s.facts {
		nf[s.rw(f)] = b
	}
	s.facts = nf
}

func (s *State) consistent() bool {
	for _, l := range s.lins {
		if n, ok := isInt(l); ok && n < 0 {
			return false
		}
		if s.prove(linComb(l, -1, Int(1), -1), 2) {
			return false
		}
	}
	for f, b := range s.facts {
		if f.Op == OBool {
			if (f.N == 1) != b {
				return false
			}
		}
		if f.Op == OEq0 && !b {
			if s.proveGE(f.A[0]) && s.proveGE(MulN(f.A[0], -1)) {
				return false
			}
		}
	}
	return true
}

// derive adds the consequences of a boolean application becoming known.
func (s *State) derive(c *V, b bool) bool {
	if c.Op == OEq0 && !b {
		// x != 0 and x >= 0  =>  x >= 1
		if s.proveGE(c.A[0]) {
			s.addGE(AddN(c.A[0], -1))
		} else if s.proveGE(MulN(c.A[0], -1)) {
			s.addGE(AddN(MulN(c.A[0], -1), -1))
		}
		// an integer remainder that is not 0 is 1
		n, as, _ := linParts(c.A[0])
		if n == 0 && len(as) == 1 && as[0].Op == OApp && as[0].S == "mod2" {
			s.eqs = append(s.eqs, eqn{as[0], Int(1)})
			s.renorm()
		}
		return s.consistent()
	}
	if c.Op != OApp {
		return true
	}
	switch c.S {
	case "isnil":
		if b {
			ln := App("len", c.A[0])
			s.addEq(ln)
			return s.consistent()
		}
	case "hasprefix":
		if b {
			s.addGE(Sub(strLen(c.A[0]), strLen(c.A[1])))
			return s.consistent()
		}
	case "streq":
		if b {
			if x, y := wholeContent(c.A[0]), wholeContent(c.A[1]); x != nil && y != nil {
				// the contents are the same
				if newness(y) > newness(x) || newness(y) == newness(x) && y.id > x.id {
					x, y = y, x
				}
				if newness(x) > 0 && !contains(y, x) {
					s.eqs = append(s.eqs, eqn{x, y})
					s.renorm()
					return s.consistent()
				}
			}
			d := Sub(strLen(c.A[0]), strLen(c.A[1]))
			if d.Op != OInt {
				s.addEq(d)
			}
			return s.consistent()
		}
	}
	return true
}

func (s *State) factList() []string {
	var out []string
	for f, b := range s.facts {
		out = append(out, fmt.Sprintf("%v=%v", f, b))
	}
	for _, l := range s.lins {
		out = append(out, l.String()+">=0")
	}
	for _, q := range s.eqs {
		out = append(out, q.atom.String()+":="+q.val.String())
	}
	sort.Strings(out)
	return out
}

func (s *State) dump() string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "frame %s\n", f.fn)
		for i, v := range f.env {
			if v != nil {
				fmt.Fprintf(&b, "   %s = %v\n", f.info.vals[i].Name(), v)
			}
		}
	}
	var ids []int
	for id := range s.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[ObjID(id)]
		fmt.Fprintf(&b, "o%d kind%d %s %s many=%v val=%v segs=%v attrs=%v\n", id, o.Kind, o.Region, typeKey(o.T), o.Many, o.Val, o.Segs, o.Attrs)
	}
	for _, f := range s.factList() {
		fmt.Fprintf(&b, "fact %s\n", f)
	}
	for k, v := range s.ghost {
		fmt.Fprintf(&b, "ghost %s=%v\n", k, v)
	}
	fmt.Fprintf(&b, "locks %v\n", s.locks)
	return b.String()
}
