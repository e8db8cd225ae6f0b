package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A watched value stands for one arbitrary element of a list or map given to
// the code (or found by it).  It is never merged with the other elements: the
// lists it gets into keep it as a separate element, and loops over such lists
// are analysed separately before, at and after it.  What holds for the watched
// element holds for every element.

func (s *State) watching() bool { return s.ghost["watch"] != nil }

// watchSym makes the watched value.
func (s *State) watchSym(origin string, t types.Type) *V {
	x := s.sym(origin, t)
	symOf(x).watched = true
	symOf(x).perm = true
	s.ghost["watch"] = vTrue
	return x
}

// carries tells whether a list element is, or was made of, the watched value.
func (s *State) carries(v *V) bool {
	seen := map[ObjID]bool{}
	var has func(v *V, depth int) bool
	has = func(v *V, depth int) bool {
		if v == nil || depth > 12 {
			return false
		}
		switch v.Op {
		case OSym:
			return symOf(v).watched
		case OApp:
			switch v.S {
			case "elem", "byte", "mapkey", "mapval", "rune", "len", "cap", "isnil":
				return false
			}
		case OFloat, OInt, OBool, ONil, OClo:
			return false
		}
		if v.Obj != 0 && !seen[v.Obj] {
			seen[v.Obj] = true
			if o := s.heap[v.Obj]; o != nil {
				if has(o.Attrs["memo"], depth+1) || has(o.Attrs["shape"], depth+1) || has(o.Attrs["geom"], depth+1) || has(o.Attrs["parts"], depth+1) || has(o.Attrs["propsof"], depth+1) || has(o.Val, depth+1) {
					return true
				}
				for _, g := range o.Segs {
					if has(g, depth+1) {
						return true
					}
				}
			}
		}
		for i, a := range v.A {
			if v.Op == OSeg && i == 0 {
				continue // a length
			}
			if has(a, depth+1) {
				return true
			}
		}
		return false
	}
	return has(v, 0)
}

func (s *State) watchedSeg(g *V) bool {
	return g.S == "el" && s.watching() && s.carries(g.A[1])
}

// watchedPart tells whether a part of a list was computed from the watched value.
func (s *State) watchedPart(g *V) bool {
	if g.S != "lazy" || !s.watching() || g.A[1].Op == OApp && (strings.HasPrefix(g.A[1].S, "f:") || g.A[1].S == "deref" || g.A[1].S == "elem") {
		return false // a list that was there before
	}
	return mentions(g.A[1], func(i *symInfo) bool { return i.watched })
}

// watchedAt gives the position of the watched element of a list.
func (s *State) watchedAt(o *Obj) (*V, bool) {
	if o == nil || o.Bytes || o.Kind != KArr && o.Kind != KMap || !s.watching() {
		return nil, false
	}
	acc := Int(0)
	for _, g := range o.Segs {
		if s.watchedSeg(g) {
			return acc, true
		}
		acc = Add(acc, g.A[0])
	}
	return nil, false
}

// A watchMark says that an integer of a loop indexes a list with a watched
// element.
type watchMark struct {
	place string // register, or memory cell, that holds the integer
	list  string // kind of list
	d     int64
}

func listKind(o *Obj) string {
	k := strconv.Itoa(int(o.Kind))
	if o.T != nil {
		k += o.T.String()
	}
	return k
}

// watchedLists are the lists with a watched element.
func (s *State) watchedLists() []ObjID {
	var ids []ObjID
	for id, o := range s.heap {
		if _, ok := s.watchedAt(o); ok && o.Region != "ghost" {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return objNames[ids[i]] < objNames[ids[j]] })
	return ids
}

// loopInts lists the integers a loop may count with.
func (s *State) loopInts(f *Frame, head *ssa.BasicBlock, see func(place string, v *V)) {
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r := f.info.idx[phi]
		v := f.env[r]
		if v == nil {
			continue
		}
		switch {
		case v.Op == OSlice:
			see("o"+strconv.Itoa(r), v.A[0])
		case intish(v) || isAtom(v) && isIntType(phi.Type()):
			see("r"+strconv.Itoa(r), v)
		}
	}
	for id, o := range s.heap {
		if o.Kind == KCell && o.Val != nil && o.T != nil && !o.Many && isIntType(o.T) && o.Attrs["memo"] == nil {
			see("c"+strconv.Itoa(int(id)), o.Val)
		}
		if o.Kind == KRes && o.Attrs["idx"] != nil {
			see("k"+strconv.Itoa(int(id)), o.Attrs["idx"])
		}
	}
}

// markIndex notes which integers of the active loops an index came from.
func (s *State) markIndex(id ObjID, idx *V) {
	e := s.e
	if _, ok := s.watchedAt(s.heap[id]); !ok {
		return
	}
	for _, f := range s.frames {
		for _, l := range f.loops {
			s.loopInts(f, l.head, func(place string, v *V) {
				d, ok := isInt(s.rw(Sub(idx, v)))
				if !ok || d < -1 || d > 1 {
					return
				}
				if e.watchIdx[l.head] == nil {
					e.watchIdx[l.head] = map[watchMark]bool{}
				}
				m := watchMark{place, listKind(s.heap[id]), d}
				if !e.watchIdx[l.head][m] {
					e.watchIdx[l.head][m] = true
					e.restart = e.mayRestart
				}
			})
		}
	}
}

// watchCases compares the counters of the loops under way with the position
// of the watched element; a comparison that is open is returned to be decided,
// otherwise the key of the case.
func (s *State) watchCases(head *ssa.BasicBlock) (open *V, key string) {
	if !s.watching() {
		return nil, ""
	}
	f := s.top()
	var ks []string
	s.loopInts(f, head, func(place string, v *V) {
		for _, m := range s.e.marksOf(head) {
			if m.place != place || open != nil {
				continue
			}
			for _, id := range s.watchedLists() {
				if open != nil || listKind(s.heap[id]) != m.list {
					continue
				}
				pos, _ := s.watchedAt(s.heap[id])
				x := s.rw(AddN(Sub(v, pos), m.d))
				k := place + "." + m.list + "." + strconv.Itoa(int(m.d))
				switch s.truth(GE(x)) {
				case -1:
					open = GE(x)
				case 0:
					ks = append(ks, k+"<")
				case 1:
					switch s.truth(Eq0(x)) {
					case -1:
						open = Eq0(x)
					case 0:
						ks = append(ks, k+">")
					case 1:
						ks = append(ks, k+"=")
					}
				}
			}
		}
	})
	n := 0
	for _, o := range s.heap {
		if o.Kind != KArr && o.Kind != KMap || o.Bytes {
			continue
		}
		for _, g := range o.Segs {
			if s.watchedSeg(g) {
				n++
			}
			if s.watchedPart(g) {
				ks = append(ks, "part"+strconv.Itoa(int(g.A[1].id)))
			}
		}
	}
	// what is known of the kind of the watched value holds for what was made of it
	for _, q := range s.eqs {
		if q.val.Op == OInt && q.atom.Op == OApp && strings.HasPrefix(q.atom.S, "f:") && mentions(q.atom, func(i *symInfo) bool { return i.watched }) {
			ks = append(ks, q.atom.String()+q.val.String())
		}
	}
	for x, b := range s.facts {
		if x.Op == OApp && (strings.HasPrefix(x.S, "istype:") || x.S == "isnil") && !hasElem(x) && mentions(x, func(i *symInfo) bool { return i.watched }) {
			ks = append(ks, x.String()+strconv.FormatBool(b))
		}
	}
	sort.Strings(ks)
	return open, "!watch!" + strconv.Itoa(n) + strings.Join(ks, ";")
}

// hasElem: an element of some list is spoken of.
func hasElem(v *V) bool {
	found := false
	walk(v, func(x *V) { found = found || x.Op == OApp && (x.S == "elem" || x.S == "at") })
	return found
}

// watchBounds offers the positions of watched elements as bounds of counters.
func (a *generaliser) watchBounds(gvs []*V, try func(f *V, b bool)) {
	if !a.g.watching() {
		return
	}
	var ps []*V
	for _, o := range a.g.heap {
		if p, ok := a.g.watchedAt(o); ok {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	for _, x := range gvs {
		for _, p := range ps {
			if x == p {
				continue
			}
			for d := int64(-2); d <= 4; d++ {
				try(GE(AddN(Sub(p, x), -d)), true)
				try(GE(AddN(Sub(x, p), -d)), true)
			}
		}
	}
}

func (e *Engine) marksOf(head *ssa.BasicBlock) []watchMark {
	var ms []watchMark
	for m := range e.watchIdx[head] {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		a, b := ms[i], ms[j]
		if a.place != b.place {
			return a.place < b.place
		}
		if a.list != b.list {
			return a.list < b.list
		}
		return a.d < b.d
	})
	return ms
}
