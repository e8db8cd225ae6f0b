package main

// Segment lists: the contents of strings, byte arrays and element lists.
//
// Byte segments:  lit[len,const] op[len,src,off] be64[8,v] le64[8,v] zero[len]
//                 byte[1,v] unk[len,sym]
// List segments:  el[1,v] star[n,alternatives...] zero[n] lazy[n,src,off]

func Seg(kind string, ln *V, a ...*V) *V {
	return intern(&V{Op: OSeg, S: kind, A: append([]*V{ln}, a...)})
}

func Lit(s string) *V { return Seg("lit", Int(int64(len(s))), Float(s)) }

func (v *V) Lit() string { return v.A[1].S }

func StrConst(s string) *V {
	if s == "" {
		return vEmptyStr
	}
	return StrV([]*V{Lit(s)})
}

func strConst(v *V) (string, bool) {
	if v.Op != OStr {
		return "", false
	}
	if len(v.A) == 0 {
		return "", true
	}
	if len(v.A) == 1 && v.A[0].S == "lit" {
		return v.A[0].Lit(), true
	}
	return "", false
}

// StrV normalises and interns a byte string.
func StrV(segs []*V) *V { return intern(&V{Op: OStr, A: normBytes(segs)}) }

func normBytes(in []*V) []*V {
	var out []*V
	for _, s := range in {
		if n, ok := isInt(s.A[0]); ok && n == 0 {
			continue
		}
		if s.S == "be64" && s.A[1].Op == OApp && s.A[1].S == "dec64" {
			out = append(out, s.A[1].A[0].A...)
			continue
		}
		if s.S == "op" && s.A[1].Op == OStr {
			// the whole of a known string
			if n, ok := isInt(s.A[2]); ok && n == 0 && strLen(s.A[1]) == s.A[0] {
				out = append(out, s.A[1].A...)
				continue
			}
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.S == "lit" && s.S == "lit" {
				out[len(out)-1] = Lit(p.Lit() + s.Lit())
				continue
			}
			if p.S == "zero" && s.S == "zero" {
				out[len(out)-1] = Seg("zero", Add(p.A[0], s.A[0]))
				continue
			}
			if p.S == "op" && s.S == "op" && p.A[1] == s.A[1] && Add(p.A[2], p.A[0]) == s.A[2] {
				out[len(out)-1] = Seg("op", Add(p.A[0], s.A[0]), p.A[1], p.A[2])
				continue
			}
		}
		out = append(out, s)
		// eight bytes of one word, most significant first
		if s.S == "byte" && len(out) >= 8 {
			if w := wordOfBytes(out[len(out)-8:]); w != nil {
				out = append(out[:len(out)-8:len(out)-8], w)
			}
		}
	}
	// an opaque string rebuilt from all its parts
	for i, s := range out {
		if s.S == "op" && s.A[1].Op == OStr && s.A[2] == Int(0) && s.A[0] == strLen(s.A[1]) {
			n := append([]*V{}, out[:i]...)
			n = append(n, s.A[1].A...)
			return normBytes(append(n, out[i+1:]...))
		}
	}
	return out
}

// wordOfBytes recognises byte(v>>56) ... byte(v) as the big endian form of v
// (and the reverse order as the little endian form).
func wordOfBytes(b []*V) *V {
	get := func(s *V) (*V, int64, bool) {
		if s.S != "byte" {
			return nil, 0, false
		}
		x := s.A[1]
		if x.Op == OApp && x.S == "conv:uint8" {
			x = x.A[0]
		}
		if x.Op == OApp && x.S == "shr" {
			if n, ok := isInt(x.A[1]); ok {
				return x.A[0], n, true
			}
		}
		return x, 0, true
	}
	v0, s0, ok := get(b[0])
	if !ok || (s0 != 56 && s0 != 0) {
		return nil
	}
	kind, step := "be64", int64(-8)
	if s0 == 0 {
		kind, step = "le64", 8
	}
	for i, s := range b {
		v, sh, ok := get(s)
		if !ok || v != v0 || sh != s0+int64(i)*step {
			return nil
		}
	}
	return Seg(kind, Int(8), v0)
}

func strLen(v *V) *V {
	n := Int(0)
	for _, s := range v.A {
		n = Add(n, s.A[0])
	}
	return n
}

func segsLen(segs []*V) *V {
	n := Int(0)
	for _, s := range segs {
		n = Add(n, s.A[0])
	}
	return n
}

func decode64(content *V, enc string) *V {
	if content.Op == OStr && len(content.A) == 1 && content.A[0].S == enc {
		return content.A[0].A[1]
	}
	if content.Op == OStr && len(content.A) == 1 && content.A[0].S == "zero" {
		return Int(0)
	}
	if enc == "be64" {
		return App("dec64", content)
	}
	return App("dec:"+enc, content)
}

// order is what the segment operations need to know about integers.
type order interface {
	eq(a, b *V) bool
	le(a, b *V) bool
}

func isListSeg(s *V) bool {
	switch s.S {
	case "el", "star", "lazy":
		return true
	}
	return false
}

// cutSeg returns the part [lo,hi) of one segment.
func cutSeg(s *V, lo, hi *V) *V {
	n := Sub(hi, lo)
	switch s.S {
	case "lit":
		a, ok1 := isInt(lo)
		b, ok2 := isInt(hi)
		if ok1 && ok2 && a >= 0 && b >= a && b <= int64(len(s.Lit())) {
			return Lit(s.Lit()[a:b])
		}
	case "op", "lazy":
		return intern(&V{Op: OSeg, S: s.S, A: []*V{n, s.A[1], Add(s.A[2], lo)}, T: s.T})
	case "zero":
		return Seg("zero", n)
	case "star":
		return Seg("star", n, s.A[1:]...)
	}
	return Seg("op", n, StrV([]*V{s}), lo)
}

// splitSegs cuts segs at position pos; ok is false when pos cannot be located.
func splitSegs(o order, segs []*V, pos *V) (l, r []*V, ok bool) {
	acc := Int(0)
	for i, s := range segs {
		if o.eq(acc, pos) {
			return segs[:i:i], segs[i:], true
		}
		end := Add(acc, s.A[0])
		if o.eq(end, pos) {
			return segs[: i+1 : i+1], segs[i+1:], true
		}
		if o.le(acc, pos) && o.le(pos, end) {
			if s.S == "el" {
				return nil, nil, false
			}
			cut := Sub(pos, acc)
			l = append(append([]*V{}, segs[:i]...), cutSeg(s, Int(0), cut))
			r = append([]*V{cutSeg(s, cut, s.A[0])}, segs[i+1:]...)
			return l, r, true
		}
		if !o.le(end, pos) {
			return nil, nil, false
		}
		acc = end
	}
	if o.eq(acc, pos) {
		return segs, nil, true
	}
	return nil, nil, false
}

// subSegs is segs[lo:lo+n].
func subSegs(o order, segs []*V, lo, n *V) ([]*V, bool) {
	_, r, ok := splitSegs(o, segs, lo)
	if !ok {
		return nil, false
	}
	l, _, ok := splitSegs(o, r, n)
	return l, ok
}

// subStr is the content of a byte string from lo, n bytes long.
func subStr(o order, segs []*V, lo, n *V) *V {
	if s, ok := subSegs(o, segs, lo, n); ok {
		return StrV(s)
	}
	whole := StrV(segs)
	return StrV([]*V{Seg("op", n, whole, lo)})
}
