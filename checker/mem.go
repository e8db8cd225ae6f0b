package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

var vIdx = newSym("$i", nil) // position inside a star segment

type choice struct {
	s *State
	v *V
}

func one(s *State, v *V) []choice { return []choice{{s, v}} }

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isByteSlice(t types.Type) bool {
	if s, ok := under(t).(*types.Slice); ok {
		return isByte(s.Elem())
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// zero is the zero value of a type.
func zero(t types.Type) *V {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsString != 0:
			return vEmptyStr
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Float("0")
		}
		return vNil
	case *types.Slice:
		return nilSlice()
	case *types.Struct:
		if opaqueStruct(t) {
			return App("zero:" + typeKey(t))
		}
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return Struct(t, fs)
	case *types.Array:
		if u.Len() > 64 {
			return App("zero:" + typeKey(t))
		}
		es := make([]*V, u.Len())
		for i := range es {
			es[i] = zero(u.Elem())
		}
		return intern(&V{Op: OArr, A: es, T: t})
	case *types.Tuple:
		fs := make([]*V, u.Len())
		for i := range fs {
			fs[i] = zero(u.At(i).Type())
		}
		return Tuple(fs...)
	}
	return vNil
}

// opaqueStruct tells the struct types whose fields are never looked into.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time", "sync.Mutex", "sync.RWMutex", "sync.Once", "bytes.Buffer", "strings.Builder", "bytes.Reader",
		"github.com/syndtr/goleveldb/leveldb.Batch", "github.com/golang/geo/s2.Cap", "github.com/golang/geo/s2.Rect",
		"github.com/golang/geo/s2.Cell", "sync.WaitGroup", "sync.Pool", "sync.Map":
		return true
	}
	return false
}

// regionOf says whose memory an opaque term denotes.
func regionOf(t *V) string {
	reg := ""
	walk(t, func(x *V) {
		if reg == "" && x.Op == OSym {
			if r := symOf(x).region; r != "" {
				reg = r
			} else {
				reg = "ext:" + symOf(x).origin
			}
		}
	})
	if reg == "" {
		return "ext:?"
	}
	return reg
}

// reify gives an opaque term the shape of its type.
func (s *State) reify(t *V, typ types.Type) *V {
	if t == nil || !isAtom(t) {
		return t
	}
	switch u := under(typ).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV([]*V{Seg("op", App("len", t), t, Int(0))})
		}
	case *types.Slice:
		o := s.memoObj("sl", t, func(o *Obj) {
			o.Kind = KArr
			o.T = u.Elem()
			o.Region = regionOf(t)
			o.Bytes = isByte(u.Elem())
			if o.Bytes {
				o.Segs = []*V{Seg("op", App("len", t), t, Int(0))}
			} else {
				o.Segs = []*V{Seg("lazy", App("len", t), t, Int(0))}
			}
		})
		if s.truth(App("isnil", t)) == 1 {
			return nilSlice()
		}
		return SliceV(o, Int(0), App("len", t), App("cap", t), App("isnil", t))
	case *types.Map:
		o := s.memoObj("map", t, func(o *Obj) {
			o.Kind = KMap
			o.T = typ
			o.Region = regionOf(t)
			o.Attrs["src"] = t
			o.Attrs["len"] = App("len", t)
			o.Segs = []*V{Seg("lazy", App("len", t), t, Int(0))}
		})
		switch s.truth(App("isnil", t)) {
		case 1:
			return vNil
		case 0:
			return Ref(o)
		}
		return t // nilness still open
	case *types.Struct:
		return t
	}
	return t
}

func (s *State) memoObj(kind string, t *V, init func(o *Obj)) ObjID {
	id := objID(fmt.Sprintf("%s:%d", kind, t.id))
	if s.heap[id] == nil {
		o := s.putObj(id, KCell, nil, "", token.NoPos)
		init(o)
		o.Attrs["memo"] = t
	}
	return id
}

// pointee materialises what an opaque non-nil pointer points to.
func (s *State) pointee(t *V, typ types.Type) *V {
	elem := typ
	if p, ok := under(typ).(*types.Pointer); ok {
		elem = p.Elem()
	}
	id := s.memoObj("ptr", t, func(o *Obj) {
		o.T = elem
		o.Region = regionOf(t)
		if a, ok := under(elem).(*types.Array); ok {
			o.Kind = KArr
			o.T = a.Elem()
			o.Bytes = isByte(a.Elem())
			k := "lazy"
			if o.Bytes {
				k = "op"
			}
			o.Segs = []*V{Seg(k, Int(a.Len()), App("deref", t), Int(0))}
			return
		}
		o.Val = s.reify(App("deref", t), elem)
	})
	return Ptr(id)
}

func structOf(t types.Type) *types.Struct {
	st, _ := under(t).(*types.Struct)
	return st
}

// field projects field i of struct value v of type t.
func (s *State) field(v *V, i int, t types.Type) *V {
	if v.Op == OStruct {
		return v.A[i]
	}
	st := structOf(t)
	f := st.Field(i)
	if v.Op == OApp && strings.HasPrefix(v.S, "zero:") {
		return zero(f.Type())
	}
	return s.reify(App("f:"+f.Name(), v), f.Type())
}

func (s *State) expand(v *V, t types.Type) *V {
	if v.Op == OStruct {
		return v
	}
	st := structOf(t)
	fs := make([]*V, st.NumFields())
	for i := range fs {
		fs[i] = s.field(v, i, t)
	}
	return Struct(t, fs)
}

// load reads through a pointer.
func (s *State) load(p *V) []choice {
	o := s.obj(p.Obj)
	if o.Kind == KArr {
		if len(p.A) == 0 {
			return one(s, s.arrayValue(o))
		}
		var out []choice
		for _, c := range s.elAt(p.Obj, p.A[0]) {
			out = append(out, choice{c.s, c.s.project(c.v, p.A[1:], o.T)})
		}
		return out
	}
	return one(s, s.project(o.Val, p.A, o.T))
}

func (s *State) arrayValue(o *Obj) *V {
	var es []*V
	for _, g := range o.Segs {
		if n, ok := isInt(g.A[0]); g.S == "zero" && ok && n <= 64 {
			for i := int64(0); i < n; i++ {
				es = append(es, zero(o.T))
			}
			continue
		}
		if g.S != "el" && g.S != "byte" {
			return App("arr", StrOrList(o))
		}
		es = append(es, g.A[1])
	}
	return intern(&V{Op: OArr, A: es, T: types.NewArray(o.T, int64(len(es)))})
}

func StrOrList(o *Obj) *V {
	if o.Bytes {
		return StrV(o.Segs)
	}
	return App("list", o.Segs...)
}

func (s *State) project(v *V, path []*V, t types.Type) *V {
	for _, p := range path {
		if p.Op == OFld {
			v = s.field(v, int(p.N), t)
			t = structOf(t).Field(int(p.N)).Type()
			continue
		}
		a := under(t).(*types.Array)
		t = a.Elem()
		if n, ok := isInt(p); ok && v.Op == OArr && n >= 0 && int(n) < len(v.A) {
			v = v.A[n]
		} else if c := childOf(v); c != nil {
			v = App("child", c, s.rw(p))
		} else {
			v = s.reify(App("elem", v, p), t)
		}
	}
	return v
}

// childOf gives the cell an array of cells holds the children of.
func childOf(v *V) *V {
	if v.Op != OArr || len(v.A) != 4 {
		return nil
	}
	for i, x := range v.A {
		if x.Op != OApp || x.S != "child" || x.A[0] != v.A[0].A[0] || x.A[1] != Int(int64(i)) {
			return nil
		}
	}
	return v.A[0].A[0]
}

func (s *State) update(v *V, path []*V, t types.Type, x *V) *V {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	if p.Op == OFld {
		v = s.expand(v, t)
		fs := append([]*V(nil), v.A...)
		fs[p.N] = s.update(fs[p.N], path[1:], structOf(t).Field(int(p.N)).Type(), x)
		return Struct(v.T, fs)
	}
	a := under(t).(*types.Array)
	if n, ok := isInt(p); ok && v.Op == OArr && n >= 0 && int(n) < len(v.A) {
		es := append([]*V(nil), v.A...)
		es[n] = s.update(es[n], path[1:], a.Elem(), x)
		return intern(&V{Op: OArr, A: es, T: v.T})
	}
	return s.sym("array", t)
}

// store writes through a pointer.
func (s *State) store(p *V, x *V) {
	o := s.mut(p.Obj)
	s.e.onWrite(s, o, p)
	o.Attrs["dirty"] = vTrue
	if o.Kind == KArr {
		if len(p.A) == 0 {
			if x.Op == OArr {
				o.Segs = nil
				for _, e := range x.A {
					o.Segs = append(o.Segs, elSeg(o, e))
				}
				o.norm()
			} else {
				o.Segs = []*V{s.unkSeg(o, o.Len())}
			}
			return
		}
		if len(p.A) > 1 {
			cs := s.elAt(p.Obj, p.A[0])
			if len(cs) == 1 && cs[0].s == s {
				x = s.update(cs[0].v, p.A[1:], o.T, x)
			} else {
				x = s.sym("element", o.T)
			}
		}
		s.overwrite(o, p.A[0], []*V{elSeg(o, x)})
		return
	}
	o.Val = s.update(o.Val, p.A, o.T, x)
}

func elSeg(o *Obj, x *V) *V {
	if o.Bytes {
		if n, ok := isInt(x); ok && n >= 0 && n < 256 {
			if n == 0 {
				return Seg("zero", Int(1))
			}
			return Lit(string([]byte{byte(n)}))
		}
		return Seg("byte", Int(1), x)
	}
	return Seg("el", Int(1), x)
}

func (o *Obj) norm() {
	if o.Bytes {
		o.Segs = normBytes(o.Segs)
	} else {
		o.Segs = normList(o.Segs)
	}
}

func normList(in []*V) []*V {
	var out []*V
	for _, s := range in {
		if n, ok := isInt(s.A[0]); ok && n == 0 {
			continue
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.S == "zero" && s.S == "zero" {
				out[len(out)-1] = Seg("zero", Add(p.A[0], s.A[0]))
				continue
			}
			if p.S == "lazy" && s.S == "lazy" && p.A[1] == s.A[1] && Add(p.A[2], p.A[0]) == s.A[2] {
				out[len(out)-1] = Seg("lazy", Add(p.A[0], s.A[0]), p.A[1], p.A[2])
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

func (s *State) unkSeg(o *Obj, n *V) *V {
	x := s.sym("overwritten", nil)
	if o.Bytes {
		return Seg("op", n, x, Int(0))
	}
	return Seg("lazy", n, x, Int(0))
}

// mirrored: one of the elements of a list shares the memory that is written.
func (s *State) mirrored(o *Obj, at *V) {
	m := o.Attrs["mirror"]
	if m == nil || s.truth(GE(Sub(at, o.Len()))) == 1 {
		// only behind what was ever written
		return
	}
	for _, r := range m.A {
		if s.heap[r.Obj] == nil {
			continue
		}
		if c := s.mut(r.Obj); !c.isOverwritten() {
			x := s.sym("overwritten", nil)
			symOf(x).many = true
			k := "lazy"
			if c.Bytes {
				k = "op"
			}
			c.Segs = []*V{Seg(k, App("len", x), x, Int(0))}
		}
	}
}

// isOverwritten: nothing is known of the contents any more.
func (o *Obj) isOverwritten() bool {
	return len(o.Segs) == 1 && strings.HasPrefix(symName(o.Segs[0]), "overwritten")
}

// symName is the origin of the symbol an opaque part is of.
func symName(g *V) string {
	if (g.S == "op" || g.S == "lazy") && g.A[1].Op == OSym {
		return symOf(g.A[1]).origin
	}
	return ""
}

// overwrite replaces part of an array.
func (s *State) overwrite(o *Obj, at *V, segs []*V) {
	s.mirrored(o, at)
	n := segsLen(segs)
	l, r, ok := splitSegs(s, o.Segs, at)
	if ok {
		var rest []*V
		_, rest, ok = splitSegs(s, r, n)
		if ok {
			o.Segs = append(append(append([]*V(nil), l...), segs...), rest...)
			o.norm()
			return
		}
	}
	// position unknown: anything may have changed
	if len(o.Segs) == 1 && o.Segs[0].S == "star" || len(o.Segs) > 0 && !o.Bytes && allRuns(o.Segs) {
		alts := altsOf(o.Segs)
		alts = append(alts, altsOf(segs)...)
		o.Segs = []*V{starSeg(o.Len(), alts)}
		return
	}
	o.Segs = []*V{s.unkSeg(o, o.Len())}
}

func allRuns(segs []*V) bool {
	for _, g := range segs {
		if g.S != "el" && g.S != "star" {
			return false
		}
	}
	return true
}

func altsOf(segs []*V) []*V {
	var out []*V
	for _, g := range segs {
		out = append(out, g.A[1:]...)
	}
	return out
}

func starSeg(n *V, alts []*V) *V {
	var u []*V
	for _, a := range alts {
		dup := false
		for _, b := range u {
			if a == b {
				dup = true
			}
		}
		if !dup {
			u = append(u, a)
		}
	}
	return Seg("star", n, u...)
}

// elAt reads an element of an array.
func (s *State) elAt(id ObjID, idx *V) []choice {
	o := s.obj(id)
	idx = s.rw(idx)
	acc := Int(0)
	for _, g := range o.Segs {
		end := Add(acc, g.A[0])
		if s.le(acc, idx) && s.le(AddN(idx, 1), end) {
			return s.segAt(o, g, Sub(idx, acc))
		}
		acc = end
	}
	// not located: any element
	s.markIndex(id, idx)
	if o.Bytes {
		return one(s, App("byte", StrV(o.Segs), idx))
	}
	var out []choice
	acc = Int(0)
	for _, g := range o.Segs {
		start := acc
		acc = Add(acc, g.A[0])
		if n, ok := isInt(g.A[0]); ok && n <= 0 {
			continue
		}
		t := s.clone()
		if !t.assume(GE(Sub(idx, start)), true) || !t.assume(GE(AddN(Sub(acc, idx), -1)), true) {
			continue
		}
		rel := Sub(idx, start)
		if n, ok := isInt(g.A[0]); ok && n == 1 {
			rel = Int(0)
		}
		out = append(out, t.segAt(t.obj(id), g, rel)...)
	}
	if len(out) == 0 {
		return one(s, s.reify(App("elem", App("list", o.Segs...), idx), o.T))
	}
	return out
}

func (s *State) segAt(o *Obj, g *V, rel *V) []choice {
	switch g.S {
	case "el", "byte":
		return one(s, g.A[1])
	case "zero":
		return one(s, zero(o.T))
	case "lazy":
		x := App("elem", g.A[1], Add(g.A[2], rel))
		if isSortedList(g.A[1]) {
			s.e.sawSorted = true
		}
		s.learnElem(x)
		return one(s, s.reify(x, o.T))
	case "star":
		var out []choice
		for i, alt := range g.A[1:] {
			t := s
			if i < len(g.A)-2 {
				t = s.clone()
			}
			out = append(out, choice{t, t.instantiate(alt, rel)})
		}
		return out
	case "lit":
		if n, ok := isInt(rel); ok {
			return one(s, Int(int64(g.Lit()[n])))
		}
	case "op":
		return one(s, App("byte", g.A[1], Add(g.A[2], rel)))
	}
	return one(s, App("byte", StrV([]*V{g}), rel))
}

// instantiate makes the element at position j of a star alternative.
func (s *State) instantiate(alt *V, j *V) *V {
	done := map[ObjID]ObjID{}
	var inst func(v *V) *V
	var instObj func(id ObjID) ObjID
	inst = func(v *V) *V {
		return subst(v, func(x *V) *V {
			switch x.Op {
			case OSym:
				if x == vIdx {
					return j
				}
				if symOf(x).many {
					return App("at", x, j)
				}
			case OSlice, OPtr, ORef:
				if x.Obj == 0 {
					return nil
				}
				if n := instObj(x.Obj); n != x.Obj {
					y := *x
					y.Obj = n
					y.A = make([]*V, len(x.A))
					for i, a := range x.A {
						y.A[i] = inst(a)
					}
					return intern(&y)
				}
			}
			return nil
		})
	}
	instObj = func(id ObjID) ObjID {
		o := s.heap[id]
		if o == nil || !o.Many {
			return id
		}
		if n, ok := done[id]; ok {
			return n
		}
		nid := objID(fmt.Sprintf("inst:%d@%d", id, j.id))
		done[id] = nid
		if s.heap[nid] != nil {
			return nid
		}
		c := o.clone()
		c.ID = nid
		c.Many = false
		s.heap[nid] = c
		s.own[nid] = true
		if c.Val != nil {
			c.Val = inst(c.Val)
		}
		for i, g := range c.Segs {
			if i == 0 {
				c.Segs = append([]*V(nil), c.Segs...)
			}
			c.Segs[i] = inst(g)
		}
		for k, a := range c.Attrs {
			c.Attrs[k] = inst(a)
		}
		return nid
	}
	return inst(alt)
}

// ---- slices ----

// content is the byte string held by a slice.
func (s *State) content(v *V) *V {
	switch v.Op {
	case OStr:
		return v
	case OSlice:
		if v.Obj == 0 {
			return vEmptyStr
		}
		o := s.obj(v.Obj)
		return subStr(s, o.Segs, s.rw(v.A[0]), s.rw(v.A[1]))
	case ONil:
		return vEmptyStr
	}
	return StrV([]*V{Seg("op", App("len", v), v, Int(0))})
}

// items are the segments of a slice of any element type.
func (s *State) items(v *V) []*V {
	if v.Op != OSlice || v.Obj == 0 {
		return nil
	}
	o := s.obj(v.Obj)
	if o.Bytes {
		return s.content(v).A
	}
	if g, ok := subSegs(s, o.Segs, s.rw(v.A[0]), s.rw(v.A[1])); ok {
		return normList(g)
	}
	return []*V{Seg("lazy", v.A[1], App("sub", App("list", o.Segs...), v.A[0]), Int(0))}
}

func (s *State) sliceLen(v *V) *V {
	switch v.Op {
	case OSlice:
		return s.rw(v.A[1])
	case OStr:
		return s.rw(strLen(v))
	case ONil:
		return Int(0)
	}
	return App("len", v)
}

// mkSlice makes a fresh slice with the given contents.
func (s *State) mkSlice(elem types.Type, segs []*V, region string) *V {
	o := s.newObj(KArr, elem, region)
	o.Bytes = isByte(elem)
	o.Segs = segs
	o.norm()
	n := segsLen(segs)
	return SliceV(o.ID, Int(0), n, n, vFalse)
}

func (s *State) mkBytes(content *V, region string) *V {
	return s.mkSlice(types.Typ[types.Byte], content.A, region)
}

// regionOfSlice says whose memory the slice shares.
func (s *State) regionOfSlice(v *V) string {
	if v.Op != OSlice || v.Obj == 0 {
		return "fresh"
	}
	o := s.obj(v.Obj)
	if a := o.Attrs["alias"]; a != nil {
		return a.S
	}
	return o.Region
}
