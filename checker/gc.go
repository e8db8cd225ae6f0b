package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// liveRegs are the registers of frame i needed from its current point on.
func (s *State) liveRegs(i int) map[int]bool {
	f := s.frames[i]
	live := map[int]bool{}
	for v := range f.info.liveOut[f.blk.Index] {
		live[v] = true
	}
	if i == len(s.frames)-1 {
		f.info.backward(f.blk, live, f.pc)
		return live
	}
	ins := f.blk.Instrs[f.pc]
	if _, ok := ins.(*ssa.RunDefers); ok {
		f.info.backward(f.blk, live, f.pc)
		return live
	}
	f.info.backward(f.blk, live, f.pc+1)
	if v, ok := ins.(ssa.Value); ok {
		delete(live, f.info.idx[v])
	}
	return live
}

// roots calls f on every root value of the state.
func (s *State) eachRoot(fn func(loc string, v *V)) {
	for i, f := range s.frames {
		for r, v := range f.env {
			if v != nil {
				fn(fmt.Sprintf("f%d.r%d", i, r), v)
			}
		}
		for j, d := range f.defers {
			if d.fn != nil {
				fn(fmt.Sprintf("f%d.d%d", i, j), d.fn)
			}
			for k, a := range d.args {
				fn(fmt.Sprintf("f%d.d%d.%d", i, j, k), a)
			}
		}
		for k, a := range f.args {
			fn(fmt.Sprintf("f%d.a%d", i, k), a)
		}
	}
	var ks []string
	for k := range s.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fn("g."+k, s.ghost[k])
	}
}

func (o *Obj) eachVal(f func(*V)) {
	if o.Val != nil {
		f(o.Val)
	}
	for _, g := range o.Segs {
		f(g)
	}
	for k, a := range o.Attrs {
		if k == "child" {
			continue
		}
		f(a)
	}
}

// gc normalises the state and drops what can no longer matter.
func (s *State) gc() {
	s.growAll()
	for i, f := range s.frames {
		live := s.liveRegs(i)
		for r := range f.env {
			if f.env[r] != nil {
				if !live[r] {
					f.env[r] = nil
				} else if len(s.eqs) > 0 {
					f.env[r] = s.rw(f.env[r])
				}
			}
		}
		if len(s.eqs) > 0 {
			for j := range f.defers {
				d := &f.defers[j]
				na := make([]*V, len(d.args))
				for k, a := range d.args {
					na[k] = s.rw(a)
				}
				d.args = na
			}
		}
	}
	if len(s.eqs) > 0 {
		for k, v := range s.ghost {
			s.ghost[k] = s.rw(v)
		}
		for id := range s.heap {
			o := s.heap[id]
			ch := false
			if o.Val != nil && s.rw(o.Val) != o.Val {
				ch = true
			}
			for _, g := range o.Segs {
				if s.rw(g) != g {
					ch = true
				}
			}
			for _, a := range o.Attrs {
				if s.rw(a) != a {
					ch = true
				}
			}
			if ch {
				o = s.mut(id)
				if o.Val != nil {
					o.Val = s.rw(o.Val)
				}
				segs := make([]*V, len(o.Segs))
				for i, g := range o.Segs {
					segs[i] = s.rw(g)
				}
				o.Segs = segs
				if o.Kind == KArr {
					o.norm()
				}
				for k, a := range o.Attrs {
					o.Attrs[k] = s.rw(a)
				}
			}
		}
	}
	// reachable objects and symbols
	syms := map[int64]bool{}
	seen := map[ObjID]bool{}
	var visit func(v *V)
	var visitObj func(id ObjID)
	vis := map[*V]bool{}
	visit = func(v *V) {
		if v == nil || vis[v] {
			return
		}
		vis[v] = true
		if v.Op == OSym {
			syms[v.N] = true
		}
		if v.Obj != 0 {
			visitObj(v.Obj)
		}
		for _, a := range v.A {
			visit(a)
		}
	}
	visitObj = func(id ObjID) {
		if seen[id] {
			return
		}
		seen[id] = true
		if o := s.heap[id]; o != nil {
			o.eachVal(visit)
		}
	}
	s.eachRoot(func(_ string, v *V) { visit(v) })
	for id, o := range s.heap {
		if o.Attrs["pinned"] != nil {
			visitObj(id)
		}
	}
	// modified objects of opaque terms that may be looked up again
	for again := true; again; {
		again = false
		for id, o := range s.heap {
			if !seen[id] && o.Attrs["dirty"] != nil && o.Attrs["memo"] != nil && symsLive(o.Attrs["memo"], syms) {
				visitObj(id)
				again = true
			}
		}
	}
	for id := range s.heap {
		if !seen[id] {
			delete(s.heap, id)
			delete(s.own, id)
		}
	}
	s.trimSpare()
	for id, o := range s.heap {
		if ch := o.Attrs["child"]; ch != nil && s.heap[ch.Obj] == nil {
			o = s.mut(id)
			delete(o.Attrs, "child")
			delete(o.Attrs, "childat")
			delete(o.Attrs, "childbase")
		}
	}
	for f := range s.facts {
		if !symsLive(f, syms) {
			delete(s.facts, f)
		}
	}
	var nl []*V
	for _, l := range s.lins {
		if symsLive(l, syms) {
			nl = append(nl, l)
		}
	}
	s.lins = nl
	var ne []eqn
	for _, q := range s.eqs {
		if symsLive(q.atom, syms) && symsLive(q.val, syms) && q.atom.Op != OSym {
			ne = append(ne, q)
		} else if q.atom.Op == OSym && permanent(q.atom) {
			ne = append(ne, q)
		}
	}
	s.eqs = ne
	// symbol numbers that are free again
	max := map[string]int{}
	for n := range syms {
		i := &symTab[n]
		if i.key != "" && i.n+1 > max[i.key] {
			max[i.key] = i.n + 1
		}
	}
	s.symN = max
	for k := range s.memo {
		if s.heap[s.memo[k]] == nil {
			delete(s.memo, k)
		}
	}
}

// permanent symbols stay meaningful after they disappear from the state.
func permanent(v *V) bool { return v.Op == OSym && symOf(v).perm }

func symsLive(v *V, syms map[int64]bool) bool {
	if v.Op == OSym {
		return syms[v.N] || symOf(v).perm || v == vIdx
	}
	for _, a := range v.A {
		if a != nil && !symsLive(a, syms) {
			return false
		}
	}
	if v.Obj != 0 && v.Op != OApp {
		return true
	}
	return true
}

// canon identifies the state up to its trace.
func (s *State) canon() string {
	var b strings.Builder
	w := func(v *V) {
		b.WriteString(strconv.Itoa(int(v.id)))
		b.WriteByte(',')
	}
	for _, f := range s.frames {
		for r, v := range f.env {
			if v != nil {
				b.WriteString(strconv.Itoa(r))
				b.WriteByte('=')
				w(v)
			}
		}
		b.WriteByte('d')
		for _, d := range f.defers {
			fmt.Fprintf(&b, "%p", d.instr)
			if d.fn != nil {
				w(d.fn)
			}
			for _, a := range d.args {
				w(a)
			}
		}
		b.WriteString(f.contKey)
		for _, a := range f.args {
			w(a)
		}
		b.WriteByte('|')
	}
	var ids []int
	for id := range s.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[ObjID(id)]
		fmt.Fprintf(&b, "o%d:%s%v", id, o.Region, o.Many)
		if o.Val != nil {
			w(o.Val)
		}
		for _, g := range o.Segs {
			w(g)
		}
		var ks []string
		for k := range o.Attrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k)
			w(o.Attrs[k])
		}
	}
	b.WriteByte('#')
	var fs []string
	for f, t := range s.facts {
		fs = append(fs, fmt.Sprintf("%d%v", f.id, t))
	}
	for _, l := range s.lins {
		fs = append(fs, fmt.Sprintf("l%d", l.id))
	}
	for _, q := range s.eqs {
		fs = append(fs, fmt.Sprintf("e%d:%d", q.atom.id, q.val.id))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, ";"))
	var gs []string
	for k, v := range s.ghost {
		gs = append(gs, fmt.Sprintf("%s=%d", k, v.id))
	}
	for k, n := range s.locks {
		if n != 0 {
			gs = append(gs, fmt.Sprintf("L%s=%d", k, n))
		}
	}
	sort.Strings(gs)
	b.WriteString(strings.Join(gs, ";"))
	for _, x := range s.exits {
		fmt.Fprintf(&b, "x%s.%d", x.hk, x.ver)
	}
	return b.String()
}

// signature is the part of a state that loop patterns never merge over.
func (s *State) signature() string {
	var b strings.Builder
	seen := map[ObjID]bool{}
	var cls func(v *V)
	incell := false
	obj := func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := s.heap[id]
		if o == nil {
			return
		}
		fmt.Fprintf(&b, "<%d", o.Kind)
		var ks []string
		for k, v := range o.Attrs {
			if v.Op == OFloat || v.Op == OBool {
				if k == "dirty" {
					continue
				}
				ks = append(ks, k+"="+v.String())
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		if o.Kind == KCell && o.Val != nil {
			old := incell
			incell = o.Attrs["dirty"] != nil
			cls(o.Val)
			incell = old
		}
		if w := s.ghost["watchkey"]; w != nil && o.Kind == KMap {
			for _, g := range o.Segs {
				if g.S == "el" && g.A[1].A[0] == w && len(g.A[1].A) > 1 && g.A[1].A[1].Op == OInt {
					fmt.Fprintf(&b, "w%d", g.A[1].A[1].N)
				}
			}
		}
		if o.Attrs["cur"] != nil {
			b.WriteString("cur")
			cls(o.Attrs["cur"])
			if o.Attrs["ierr"] != nil {
				b.WriteString("ierr")
				cls(o.Attrs["ierr"])
			}
		}
		if o.Kind == KRes {
			var as []string
			for k := range o.Attrs {
				as = append(as, k)
			}
			sort.Strings(as)
			for _, k := range as {
				b.WriteString(k)
				cls(o.Attrs[k])
			}
		}
		b.WriteByte('>')
	}
	cls = func(v *V) {
		switch v.Op {
		case ONil:
			b.WriteByte('0')
		case OBool:
			b.WriteString(strconv.Itoa(int(v.N)))
		case OIface:
			b.WriteString("I" + typeKey(v.T))
			cls(v.A[0])
		case OClo:
			fmt.Fprintf(&b, "F%p", v.Fn)
			for _, a := range v.A {
				cls(a)
			}
		case OPtr, ORef:
			b.WriteByte('p')
			obj(v.Obj)
		case OSlice:
			b.WriteByte('l')
			if incell {
				switch s.truth(v.A[3]) {
				case 1:
					b.WriteByte('0')
				case 0:
					b.WriteByte('n')
				}
			}
		case OStruct, OTuple, OArr:
			b.WriteByte('{')
			for _, a := range v.A {
				cls(a)
			}
			b.WriteByte('}')
		case OStr:
			b.WriteByte('s')
		case OFloat:
			b.WriteString(v.S)
		case OSym, OApp:
			switch s.truth(isNilTermS(v)) {
			case 1:
				b.WriteByte('0')
			case 0:
				b.WriteByte('n')
			default:
				b.WriteByte('?')
			}
		default:
			b.WriteByte('i')
		}
	}
	s.eachRoot(func(loc string, v *V) {
		b.WriteString(loc)
		if strings.HasPrefix(loc, "g.") && v.Op == OFloat {
			b.WriteString(v.S)
		}
		cls(v)
	})
	var ids []int
	for id, o := range s.heap {
		if o.Attrs["pinned"] != nil && !strings.HasPrefix(objNames[id], "global:") {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, "P%d", id)
		obj(ObjID(id))
	}
	var ls []string
	for k, n := range s.locks {
		if n != 0 {
			ls = append(ls, fmt.Sprintf("%s=%d", k, n))
		}
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, ";"))
	return b.String()
}

// trimSpare forgets spare capacity that no slice shows.
func (s *State) trimSpare() {
	ends := map[ObjID][]*V{}
	other := map[ObjID]bool{}
	look := func(v *V) {
		walk(v, func(x *V) {
			switch x.Op {
			case OSlice:
				if x.Obj != 0 {
					ends[x.Obj] = append(ends[x.Obj], Add(x.A[0], x.A[1]))
				}
			case OPtr, ORef:
				other[x.Obj] = true
			}
		})
	}
	any := false
	for _, o := range s.heap {
		if o.Kind == KArr && len(o.Segs) > 0 && o.Segs[len(o.Segs)-1].S == "zero" {
			any = true
		}
	}
	if !any {
		return
	}
	s.eachRoot(func(_ string, v *V) { look(v) })
	for _, o := range s.heap {
		o.eachVal(look)
	}
	for id, o := range s.heap {
		if o.Kind != KArr || o.Many || len(o.Segs) == 0 || other[id] || len(ends[id]) == 0 || o.Attrs["memo"] != nil {
			continue
		}
		k := len(o.Segs) - 1
		if o.Segs[k].S != "zero" {
			continue
		}
		at := segsLen(o.Segs[:k])
		ok := true
		for _, x := range ends[id] {
			if !s.le(x, at) {
				ok = false
			}
		}
		if ok {
			o = s.mut(id)
			o.Segs = o.Segs[:k:k]
		}
	}
}
