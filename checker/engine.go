package main

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- per function information ----

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn      *ssa.Function
	vals    []ssa.Value
	idx     map[ssa.Value]int
	order   []int // block index -> position
	loops   map[*ssa.BasicBlock]*loopInfo
	liveIn  []map[int]bool
	liveOut []map[int]bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		in.idx[v] = len(in.vals)
		in.vals = append(in.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				var mark func(x *ssa.BasicBlock)
				mark = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						mark(p)
					}
				}
				mark(b)
			}
		}
	}
	// order: loop exits last
	depth := func(b *ssa.BasicBlock) int {
		d := 0
		for _, l := range in.loops {
			if l.blocks[b] {
				d++
			}
		}
		return d
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	in.order = make([]int, len(fn.Blocks))
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		in.order[b.Index] = len(post) - 1 - i
	}
	in.liveness()
	e.infos[fn] = in
	return in
}

func (in *fnInfo) liveness() {
	n := len(in.fn.Blocks)
	in.liveIn = make([]map[int]bool, n)
	in.liveOut = make([]map[int]bool, n)
	for i := range in.liveIn {
		in.liveIn[i] = map[int]bool{}
		in.liveOut[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := in.fn.Blocks[i]
			out := in.liveOut[i]
			for _, s := range b.Succs {
				for v := range in.liveIn[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b {
							if k, ok := in.idx[phi.Edges[j]]; ok && !out[k] {
								out[k] = true
								changed = true
							}
						}
					}
				}
			}
			live := map[int]bool{}
			for v := range out {
				live[v] = true
			}
			in.backward(b, live, 0)
			for v := range live {
				if !in.liveIn[i][v] {
					in.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
}

// backward turns the registers live at the end of b into those live before
// instruction k.
func (in *fnInfo) backward(b *ssa.BasicBlock, live map[int]bool, k int) {
	for j := len(b.Instrs) - 1; j >= k; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			delete(live, in.idx[v])
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op == nil {
				continue
			}
			if x, ok := in.idx[*op]; ok {
				live[x] = true
			}
		}
	}
}

// ---- engine ----

type modelFn func(c *Call) bool // false: not handled

type Engine struct {
	mayRestart bool // a loop may be found to need splitting at a watched element
	restart    bool
	sawSorted  bool // an element of a sorted list was read
	watchIdx   map[*ssa.BasicBlock]map[watchMark]bool
	guessed    map[string]bool                      // alternatives guessed from the first element of a list
	incomplete []string                             // what could not be analysed
	summary    func(c *Call, fn *ssa.Function) bool // functions of the repository that are checked on their own
	prof       map[string]int
	cut        bool // the limits were reached
	bounded    int  // > 0: loops are followed for so many rounds only, without invariants
	coarse     bool // states entering a loop with the same signature are merged
	prog       *ssa.Program
	fset       *token.FileSet
	infos      map[*ssa.Function]*fnInfo
	inline     func(fn *ssa.Function) bool // has a body that is analysed
	models     map[string]modelFn

	work   workQueue
	seenAt map[string]map[string]bool
	heads  map[string]*headInfo
	versN  int

	client string
	viols  map[string]*Violation
	Stats  struct {
		States, Steps, Calls, Joins int
	}
	funcs                  map[*ssa.Function]bool
	unknown                map[string]bool
	oblig                  map[string]map[string]bool // property -> obligation keys checked
	sites                  map[string]bool
	ended                  int
	maxSteps               int
	deadline               time.Time
	onEnd                  func(s *State, ret []*V)
	onPanic                func(s *State, kind, msg string, pos token.Pos)
	onGo                   func(s *State, fn *V, args []*V, ins *ssa.Go)
	onLoad                 func(s *State, p *V, pos token.Pos)
	onStore                func(s *State, o *Obj, p *V)
	ifaceType              map[string]bool
	onMapNext              func(s *State, m *V, idx *V)
	chans                  chanModel
	debug                  bool
	onlyProp               map[string]bool
	globals                map[string]*V
	globalInit             map[string]func(s *State) *V
	fieldIdx               map[string]int
	unrolls                int
	onStored               func(s *State, p, x *V)
	goModel                func(s *State, fn *V, args []*V, ins *ssa.Go) []*State
	accesses               map[string]*access
	mutTreap               map[string]bool
	allRepo                map[*ssa.Function]bool
	treapKey               int
	anyItem                types.Type
	redirect               map[string]*ssa.Function
	onAlloc                func(s *State, o *Obj, t types.Type)
	mergeLocks, plainLocks *V
	plainPos               token.Pos
}

type Violation struct {
	Prop, Key, Msg, Client string
	Trace                  []string
	Pos                    string
}

func newEngine(prog *ssa.Program) *Engine {
	return &Engine{
		prog: prog, fset: prog.Fset, watchIdx: map[*ssa.BasicBlock]map[watchMark]bool{}, guessed: map[string]bool{},
		infos: map[*ssa.Function]*fnInfo{}, models: map[string]modelFn{},
		seenAt: map[string]map[string]bool{}, heads: map[string]*headInfo{},
		viols: map[string]*Violation{}, funcs: map[*ssa.Function]bool{}, unknown: map[string]bool{},
		oblig: map[string]map[string]bool{}, sites: map[string]bool{}, maxSteps: 3000000,
		globals: map[string]*V{}, globalInit: map[string]func(s *State) *V{}, accesses: map[string]*access{}, redirect: map[string]*ssa.Function{}, allRepo: map[*ssa.Function]bool{}, ifaceType: map[string]bool{},
	}
}

// ---- work queue ordered by program position ----

type item struct {
	s   *State
	pos []int
	seq int
}
type workQueue struct {
	it  []*item
	seq int
}

func (w *workQueue) Len() int { return len(w.it) }
func (w *workQueue) Less(i, j int) bool {
	a, b := w.it[i], w.it[j]
	for k := 0; k < len(a.pos) && k < len(b.pos); k++ {
		if a.pos[k] != b.pos[k] {
			return a.pos[k] < b.pos[k]
		}
	}
	if len(a.pos) != len(b.pos) {
		return len(a.pos) < len(b.pos)
	}
	return a.seq < b.seq
}
func (w *workQueue) Swap(i, j int)      { w.it[i], w.it[j] = w.it[j], w.it[i] }
func (w *workQueue) Push(x interface{}) { w.it = append(w.it, x.(*item)) }
func (w *workQueue) Pop() interface{} {
	x := w.it[len(w.it)-1]
	w.it = w.it[:len(w.it)-1]
	return x
}

func (e *Engine) push(s *State) {
	var pos []int
	for _, f := range s.frames {
		pos = append(pos, f.info.order[f.blk.Index], f.pc)
	}
	e.work.seq++
	heap.Push(&e.work, &item{s, pos, e.work.seq})
}

// posKey identifies the program point and calling context of a state.
func (s *State) posKey() string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "%s:%d:%d%s|", f.ctx, f.blk.Index, f.pc, loopKey(f.loops))
	}
	return b.String()
}

func loopKey(l []loopInst) string {
	if len(l) == 0 {
		return ""
	}
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "~%d.%d.%d", x.head.Index, x.unroll, x.ver)
	}
	return b.String()
}

var errRestart = fmt.Errorf("restart")

func (e *Engine) Run(s *State) error {
	e.push(s)
	for e.work.Len() > 0 {
		if e.over() {
			return fmt.Errorf("analysis limit reached after %d steps in %s", e.Stats.Steps, e.client)
		}
		if e.restart {
			return errRestart
		}
		it := heap.Pop(&e.work).(*item)
		s := it.s
		if e.stale(s) {
			continue
		}
		e.Stats.States++
		if e.debug {
			e.prof[fmt.Sprintf("%s#%d", s.top().fn, s.top().blk.Index)]++
		}
		e.explore(s)
	}
	return nil
}

// over reports whether the bounds of the analysis are reached.
func (e *Engine) over() bool {
	if e.Stats.Steps > e.maxSteps {
		return true
	}
	if e.Stats.Steps%16 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.maxSteps = 0
		return true
	}
	return false
}

// stale reports whether the state belongs to a superseded loop pattern.
func (e *Engine) stale(s *State) bool {
	for _, f := range s.frames {
		for _, l := range f.loops {
			if l.hk != "" && e.heads[l.hk] != nil && e.heads[l.hk].ver != l.ver {
				return true
			}
		}
	}
	hk := s.atHead
	s.atHead = ""
	for _, x := range s.exits {
		if e.heads[x.hk] != nil && e.heads[x.hk].ver != x.ver {
			if h := e.heads[hk]; h != nil {
				h.lost = true
			}
			return true
		}
	}
	s.exits = nil
	return false
}

// explore continues a state until all its successors are queued.
func (e *Engine) explore(s *State) {
	stack := []*State{s}
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for s != nil {
			e.Stats.Steps++
			if e.over() {
				return
			}
			next := e.safeStep(s)
			s = nil
			for i, n := range next {
				if i == 0 {
					s = n
				} else {
					stack = append(stack, n)
				}
			}
		}
	}
}

// safeStep drops a state the analysis cannot continue; the evidence says so.
func (e *Engine) safeStep(s *State) (next []*State) {
	defer func() {
		if r := recover(); r != nil {
			if e.debug {
				panic(r)
			}
			m := fmt.Sprintf("%s: not analysed further at %s: %s", e.client, s.top().fn, firstLine(fmt.Sprint(r)))
			for _, x := range e.incomplete {
				if x == m {
					return
				}
			}
			e.incomplete = append(e.incomplete, m)
		}
	}()
	if e.debug && traceSteps {
		fmt.Println("STEP", s.top().fn.Name(), s.top().blk.Index, s.top().blk.Instrs[s.top().pc])
		next = e.step(s)
		if len(next) == 0 {
			fmt.Println("END")
		}
		return next
	}
	return e.step(s)
}

var traceSteps = os.Getenv("TRACE") != ""

func (e *Engine) violate(prop, key, msg string, s *State, pos token.Pos) {
	e.violate1(prop, key, msg, s, pos)
	for _, p := range alsoBroken(prop, key, s) {
		e.violate1(p, key, msg, s, pos)
	}
}

// alsoBroken lists the other properties that are broken whenever an obligation
// of a property is: the same fact is part of what several of them say.
func alsoBroken(prop, key string, s *State) []string {
	kind, _, _ := strings.Cut(key, ":")
	timed := strings.HasSuffix(key, ":time")
	ghost := func(n string) bool { return s != nil && s.ghost[n] != nil }
	point := s != nil && s.ghostStr("index") == "point"
	var r []string
	switch prop + " " + kind {
	case "C05 write", "C05 operand", "C05 retain":
		r = append(r, "C09")
	case "C06 fail":
		if s != nil && strings.Contains(s.ghostStr("fail"), "commit") {
			r = append(r, "C07")
		}
		if s != nil && strings.Contains(s.ghostStr("fail"), "merge") {
			r = append(r, "C12")
		}
	case "C06 once":
		r = append(r, "C13")
	case "C16 panic":
		if strings.HasPrefix(key, "panic:doubleclose") || strings.HasPrefix(key, "panic:closedsend") {
			r = append(r, "C17")
		}
	case "C16 hidden":
		r = append(r, "C15")
	case "C22 prefix", "C22 cell":
		r = append(r, "C23")
		if timed {
			r = append(r, "C27")
		}
	case "C22 readback":
		r = append(r, "C26")
	case "C27 stored":
		r = append(r, "C22", "C23")
	case "C27 window":
		r = append(r, "C23")
	case "C23 start", "C23 stop", "C23 prefix", "C23 range":
		r = append(r, "C22")
		if timed {
			r = append(r, "C27")
		}
	case "C23 exhausted", "C23 skip":
		r = append(r, "C02", "C26")
		if point && ghost("area") {
			r = append(r, "C25")
		}
		if timed || s != nil && s.ghostStr("index") == "time" {
			r = append(r, "C27")
		}
	case "C25 kept", "C25 tested":
		r = append(r, "C26")
	case "C26 kept", "C26 all", "C26 every":
		if ghost("asked") {
			r = append(r, "C23")
		}
		if point && ghost("area") {
			r = append(r, "C25")
		}
	case "C26 cells":
		if point && ghost("area") {
			r = append(r, "C25")
		}
		if ghost("asked") {
			r = append(r, "C23", "C24")
		}
	case "C26 area", "C26 cover":
		r = append(r, "C24")
		if point && ghost("area") {
			r = append(r, "C25")
		}
	case "C25 area":
		r = append(r, "C26")
	case "C24 cover", "C24 all":
		r = append(r, "C26")
	}
	return r
}

func (e *Engine) violate1(prop, key, msg string, s *State, pos token.Pos) {
	if e.onlyProp != nil && !e.onlyProp[prop] {
		return
	}
	k := prop + "|" + key
	if _, ok := e.viols[k]; ok {
		return
	}
	v := &Violation{Prop: prop, Key: key, Msg: msg, Client: e.client, Pos: e.where(pos)}
	var tr []string
	if s != nil {
		for t := s.trace; t != nil; t = t.prev {
			tr = append(tr, e.where(t.pos)+": "+t.msg)
		}
		for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
			tr[i], tr[j] = tr[j], tr[i]
		}
		for i := len(s.frames) - 1; i >= 0; i-- {
			f := s.frames[i]
			p := token.NoPos
			if f.pc < len(f.blk.Instrs) {
				p = f.blk.Instrs[f.pc].Pos()
			}
			tr = append(tr, "  in "+f.fn.String()+" "+e.where(p))
		}
	}
	v.Trace = tr
	e.viols[k] = v
}

// ok records an obligation that was checked.
func (e *Engine) checked(prop, key string) {
	m := e.oblig[prop]
	if m == nil {
		m = map[string]bool{}
		e.oblig[prop] = m
	}
	m[key] = true
}

// require checks one obligation.
func (e *Engine) require(prop, key string, ok bool, msg string, s *State, pos token.Pos) {
	if e.onlyProp == nil || e.onlyProp[prop] {
		e.checked(prop, key)
	}
	if !ok {
		e.violate(prop, key, msg, s, pos)
	}
}

func (e *Engine) where(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := e.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// site names a program point by function and construct rather than by line.
func (e *Engine) siteKey(s *State) string {
	f := s.repoFrame()
	if f == nil {
		return "?"
	}
	return f.fn.String()
}

// repoFrame is the innermost frame that is not client code.
func (s *State) repoFrame() *Frame {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if !s.frames[i].client {
			return s.frames[i]
		}
	}
	return nil
}

func (e *Engine) pos(s *State) token.Pos {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.client {
			continue
		}
		if f.pc < len(f.blk.Instrs) {
			if p := f.blk.Instrs[f.pc].Pos(); p.IsValid() {
				return p
			}
		}
	}
	f := s.top()
	if f.pc < len(f.blk.Instrs) {
		return f.blk.Instrs[f.pc].Pos()
	}
	return token.NoPos
}

func (e *Engine) onWrite(s *State, o *Obj, p *V) {
	if e.onStore != nil {
		e.onStore(s, o, p)
	}
}

// lookupMethod finds the implementation of an interface method.
func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}
