package main

// The term language of the abstract domain.
//
// A V is an immutable, interned abstract value.  Integers are kept in linear
// normal form (OInt/OLin over atoms), strings and byte arrays as segment
// lists, and everything that is not understood is an atom: a symbol (OSym) or
// the application of a pure function to values (OApp).  Interning makes value
// equality pointer equality.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int32

type Op uint8

const (
	OInt    Op = iota // N
	OLin              // N + sum C[i]*A[i]
	OBool             // N
	OFloat            // S exact text
	OStr              // A = OSeg...
	OSeg              // S kind, A[0] length/count, A[1:] parameters
	OSym              // N = symbol number
	OApp              // S(A...)
	ONil              // nil pointer, interface, map, chan, func
	OPtr              // Obj + path A (OFld or integer terms)
	OFld              // N = field number
	OSlice            // Obj, A = off, len, cap, isnil
	OStruct           // A fields, T
	OArr              // A elements of an array value
	OIface            // T dynamic type, A[0]
	OClo              // Fn, A bindings
	OTuple            // A
	ORef              // Obj (map, chan, engine handle)
	ONot              // !A[0]
	OGE               // A[0] >= 0
	OEq0              // A[0] == 0
)

type V struct {
	Op  Op
	N   int64
	S   string
	Obj ObjID
	A   []*V
	C   []int64
	T   types.Type
	Fn  *ssa.Function
	id  int32
}

type symInfo struct {
	origin   string
	nonneg   bool
	gen      bool  // introduced by a loop generalisation
	root     int64 // the many symbol it is an instance of
	many     bool  // stands for the varying part of many elements
	typ      types.Type
	region   string
	distinct bool // unequal to every other distinct value
	nonnil   bool
	watched  bool // stands for one arbitrary element
	perm     bool
	head     string // loop head that introduced it
	key      string // creation place, and its number there
	n        int
}

var (
	interned   = map[string]*V{}
	symTab     = []symInfo{{}}
	vTrue      = intern(&V{Op: OBool, N: 1})
	vFalse     = intern(&V{Op: OBool, N: 0})
	vNil       = intern(&V{Op: ONil})
	vEmptyStr  = intern(&V{Op: OStr})
	vUnit      = intern(&V{Op: OTuple})
	typeByName = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typeByName[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeByName[t] = s
	return s
}

func intern(v *V) *V {
	var b strings.Builder
	b.WriteByte(byte('A' + v.Op))
	if v.N != 0 {
		b.WriteString(strconv.FormatInt(v.N, 36))
	}
	if v.S != "" {
		b.WriteByte('"')
		b.WriteString(v.S)
		b.WriteByte('"')
	}
	if v.Obj != 0 {
		b.WriteByte('#')
		b.WriteString(strconv.Itoa(int(v.Obj)))
	}
	for i, a := range v.A {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.FormatInt(int64(a.id), 36))
		}
		if v.C != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(v.C[i], 36))
		}
	}
	if v.T != nil {
		b.WriteByte(':')
		b.WriteString(typeKey(v.T))
	}
	if v.Fn != nil {
		b.WriteByte('@')
		b.WriteString(fmt.Sprintf("%p", v.Fn))
	}
	k := b.String()
	if o, ok := interned[k]; ok {
		return o
	}
	v.id = int32(len(interned) + 1)
	interned[k] = v
	return v
}

func Bool(b bool) *V {
	if b {
		return vTrue
	}
	return vFalse
}
func Int(n int64) *V                 { return intern(&V{Op: OInt, N: n}) }
func App(name string, a ...*V) *V    { return intern(&V{Op: OApp, S: name, A: a}) }
func Tuple(a ...*V) *V               { return intern(&V{Op: OTuple, A: a}) }
func Fld(i int) *V                   { return intern(&V{Op: OFld, N: int64(i)}) }
func Ref(o ObjID) *V                 { return intern(&V{Op: ORef, Obj: o}) }
func Ptr(o ObjID, path ...*V) *V     { return intern(&V{Op: OPtr, Obj: o, A: path}) }
func Struct(t types.Type, f []*V) *V { return intern(&V{Op: OStruct, A: f, T: t}) }
func Iface(t types.Type, v *V) *V    { return intern(&V{Op: OIface, T: t, A: []*V{v}}) }
func Float(s string) *V              { return intern(&V{Op: OFloat, S: s}) }
func SliceV(o ObjID, off, ln, cp, isnil *V) *V {
	return intern(&V{Op: OSlice, Obj: o, A: []*V{off, ln, cp, isnil}})
}

func newSym(origin string, t types.Type) *V {
	symTab = append(symTab, symInfo{origin: origin, typ: t})
	return intern(&V{Op: OSym, N: int64(len(symTab) - 1)})
}

func symOf(v *V) *symInfo { return &symTab[v.N] }

// nilSlice is the nil slice of any type.
func nilSlice() *V { return SliceV(0, Int(0), Int(0), Int(0), vTrue) }

func isAtom(v *V) bool { return v.Op == OSym || v.Op == OApp }

// ---- linear arithmetic ----

func linParts(v *V) (int64, []*V, []int64) {
	switch v.Op {
	case OInt:
		return v.N, nil, nil
	case OLin:
		return v.N, v.A, v.C
	}
	return 0, []*V{v}, []int64{1}
}

func mkLin(n int64, atoms map[*V]int64) *V {
	var as []*V
	for a, c := range atoms {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return Int(n)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && n == 0 && atoms[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = atoms[a]
	}
	return intern(&V{Op: OLin, N: n, A: as, C: cs})
}

type combKey struct {
	x, y   *V
	cx, cy int64
}

var combs, norms = map[combKey]*V{}, map[*V]*V{}

func linComb(x *V, cx int64, y *V, cy int64) *V {
	k := combKey{x, y, cx, cy}
	if r := combs[k]; r != nil {
		return r
	}
	r := linComb1(x, cx, y, cy)
	if len(combs) > 1<<20 {
		combs = map[combKey]*V{}
	}
	combs[k] = r
	return r
}

func linComb1(x *V, cx int64, y *V, cy int64) *V {
	m := map[*V]int64{}
	n1, a1, c1 := linParts(x)
	for i, a := range a1 {
		m[a] += c1[i] * cx
	}
	n2, a2, c2 := linParts(y)
	for i, a := range a2 {
		m[a] += c2[i] * cy
	}
	return mkLin(n1*cx+n2*cy, m)
}

func Add(x, y *V) *V           { return linComb(x, 1, y, 1) }
func Sub(x, y *V) *V           { return linComb(x, 1, y, -1) }
func AddN(x *V, n int64) *V    { return linComb(x, 1, Int(n), 1) }
func MulN(x *V, n int64) *V    { return linComb(x, n, Int(0), 0) }
func isInt(v *V) (int64, bool) { return v.N, v.Op == OInt }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normGE normalises e for e >= 0 over the integers.
func normGE(e *V) *V {
	if r := norms[e]; r != nil {
		return r
	}
	r := normGE1(e)
	if len(norms) > 1<<20 {
		norms = map[*V]*V{}
	}
	norms[e] = r
	return r
}

func normGE1(e *V) *V {
	n, as, cs := linParts(e)
	var g int64
	for _, c := range cs {
		g = gcd(g, c)
	}
	if g <= 1 {
		return e
	}
	m := map[*V]int64{}
	for i, a := range as {
		m[a] = cs[i] / g
	}
	return mkLin(floorDiv(n, g), m)
}

// GE is the condition e >= 0.
func GE(e *V) *V {
	e = normGE(e)
	if n, ok := isInt(e); ok {
		return Bool(n >= 0)
	}
	return intern(&V{Op: OGE, A: []*V{e}})
}

// Eq0 is the condition e == 0.
func Eq0(e *V) *V {
	if n, ok := isInt(e); ok {
		return Bool(n == 0)
	}
	n, as, cs := linParts(e)
	var g int64
	for _, c := range cs {
		g = gcd(g, c)
	}
	if g > 1 {
		if n%g != 0 {
			return vFalse
		}
	}
	if g == 0 {
		g = 1
	}
	// the first atom (by id) gets a positive coefficient
	if cs[0] < 0 {
		g = -g
	}
	m := map[*V]int64{}
	for i, a := range as {
		m[a] = cs[i] / g
	}
	return intern(&V{Op: OEq0, A: []*V{mkLin(n/g, m)}})
}

func Not(b *V) *V {
	switch b.Op {
	case OBool:
		return Bool(b.N == 0)
	case ONot:
		return b.A[0]
	case OGE:
		return GE(linComb(b.A[0], -1, Int(1), -1))
	}
	return intern(&V{Op: ONot, A: []*V{b}})
}

// ---- traversal ----

// subst rebuilds v bottom-up; f is asked first at every node and may return a
// replacement (or nil to descend).
func subst(v *V, f func(*V) *V) *V {
	if v == nil {
		return nil
	}
	if r := f(v); r != nil {
		return r
	}
	if len(v.A) == 0 {
		return v
	}
	na := make([]*V, len(v.A))
	ch := false
	for i, a := range v.A {
		na[i] = subst(a, f)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return v
	}
	return rebuild(v, na)
}

func rebuild(v *V, na []*V) *V {
	switch v.Op {
	case OLin:
		r := Int(v.N)
		for i, a := range na {
			r = linComb(r, 1, a, v.C[i])
		}
		return r
	case OGE:
		return GE(na[0])
	case OEq0:
		return Eq0(na[0])
	case ONot:
		return Not(na[0])
	case OStr:
		return StrV(na)
	case OApp:
		return mkApp(v.S, na)
	}
	n := *v
	n.A = na
	return intern(&n)
}

// mkApp builds an application, applying the algebraic laws of known functions.
func mkApp(name string, a []*V) *V {
	switch name {
	case "isnil":
		return isNilTerm(a[0])
	case "dec64":
		if len(a) == 1 {
			return decode64(a[0], "be64")
		}
	case "streq":
		if len(a) == 2 {
			return streq(a[0], a[1])
		}
	case "cmp":
		if len(a) == 2 && a[0].id > a[1].id {
			return MulN(App("cmp", a[1], a[0]), -1)
		}
	}
	return App(name, a...)
}

func isNilTerm(v *V) *V {
	switch v.Op {
	case ONil:
		return vTrue
	case OPtr, ORef, OClo, OIface:
		return vFalse
	case OSlice:
		return v.A[3]
	}
	return App("isnil", v)
}

func walk(v *V, f func(*V)) {
	if v == nil {
		return
	}
	f(v)
	for _, a := range v.A {
		walk(a, f)
	}
}

func contains(v, x *V) bool {
	if v == x {
		return true
	}
	for _, a := range v.A {
		if a != nil && contains(a, x) {
			return true
		}
	}
	return false
}

// originOf describes where an atom comes from, ignoring instance indices.
func originOf(v *V) string {
	switch v.Op {
	case OSym:
		return symOf(v).origin
	case OApp:
		switch v.S {
		case "at":
			return originOf(v.A[0])
		case "elem":
			return "elem(" + originOf(v.A[0]) + ")"
		}
		var parts []string
		for _, a := range v.A {
			parts = append(parts, originOf(a))
		}
		return v.S + "(" + strings.Join(parts, ",") + ")"
	case OInt:
		return strconv.FormatInt(v.N, 10)
	case OLin:
		var parts []string
		for i, a := range v.A {
			parts = append(parts, fmt.Sprintf("%d*%s", v.C[i], originOf(a)))
		}
		return strings.Join(parts, "+") + fmt.Sprintf("%+d", v.N)
	}
	return v.String()
}

// ---- printing ----

func (v *V) String() string {
	if v == nil {
		return "_"
	}
	switch v.Op {
	case OInt:
		return strconv.FormatInt(v.N, 10)
	case OLin:
		var b strings.Builder
		for i, a := range v.A {
			c := v.C[i]
			if i > 0 && c >= 0 {
				b.WriteByte('+')
			}
			switch c {
			case 1:
			case -1:
				b.WriteByte('-')
			default:
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.String())
		}
		if v.N != 0 {
			fmt.Fprintf(&b, "%+d", v.N)
		}
		return b.String()
	case OBool:
		return strconv.FormatBool(v.N != 0)
	case OFloat:
		return v.S
	case OStr:
		return "str" + listStr(v.A)
	case OSeg:
		s := v.S
		if v.S == "lit" {
			return strconv.Quote(v.Lit())
		}
		return s + listStr(v.A)
	case OSym:
		s := symOf(v)
		m := ""
		if s.many {
			m = "*"
		}
		if s.gen {
			m += "~"
		}
		return fmt.Sprintf("%s%s%d", s.origin, m, v.N)
	case OApp:
		return v.S + listStr(v.A)
	case ONil:
		return "nil"
	case OPtr:
		return fmt.Sprintf("&o%d%s", v.Obj, listStr(v.A))
	case OFld:
		return fmt.Sprintf(".%d", v.N)
	case OSlice:
		return fmt.Sprintf("o%d[%s+:%s nil=%s]", v.Obj, v.A[0], v.A[1], v.A[3])
	case OStruct:
		return "{" + strings.Trim(listStr(v.A), "()") + "}"
	case OArr:
		return "[" + strings.Trim(listStr(v.A), "()") + "]"
	case OIface:
		return typeKey(v.T) + "(" + v.A[0].String() + ")"
	case OClo:
		return v.Fn.Name() + listStr(v.A)
	case OTuple:
		return listStr(v.A)
	case ORef:
		return fmt.Sprintf("o%d", v.Obj)
	case ONot:
		return "!" + v.A[0].String()
	case OGE:
		return "(" + v.A[0].String() + ">=0)"
	case OEq0:
		return "(" + v.A[0].String() + "==0)"
	}
	return "?"
}

func listStr(a []*V) string {
	var p []string
	for _, x := range a {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, ", ") + ")"
}
