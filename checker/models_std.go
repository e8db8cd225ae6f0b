package main

import (
	"go/types"
	"strings"
)

func (e *Engine) stdModels() {
	// errors
	e.model("errors.New github.com/pkg/errors.New github.com/pkg/errors.Errorf", func(c *Call) { c.ret(c.s, c.newErr("made")) })
	e.model("fmt.Errorf", func(c *Call) { c.ret(c.s, c.newErr("made")) })
	wrap := func(c *Call) {
		err := c.args[0]
		switch c.s.nilness(err) {
		case 1:
			c.ret(c.s, vNil)
		case 0:
			c.ret(c.s, c.newErr("wrapped"))
		default:
			t := c.s.clone()
			if t.assume(isNilTermS(err), true) {
				c.ret(t, vNil)
			}
			if c.s.assume(isNilTermS(err), false) {
				c.ret(c.s, c.newErr("wrapped"))
			}
		}
	}
	e.model("github.com/pkg/errors.Wrap github.com/pkg/errors.Wrapf github.com/pkg/errors.WithMessage github.com/pkg/errors.WithStack github.com/pkg/errors.WithMessagef", wrap)
	e.model("github.com/pkg/errors.Cause errors.Unwrap", func(c *Call) { c.ret(c.s, c.args[0]) })
	e.model("errors.Is", func(c *Call) {
		c.ret(c.s, c.s.equal(c.args[0], c.args[1], errorT))
	})

	// bytes and strings
	e.model("bytes.Compare strings.Compare", func(c *Call) { c.ret(c.s, c.s.cmp(c.args[0], c.args[1])) })
	e.model("bytes.Equal strings.EqualFold", func(c *Call) {
		if c.name == "strings.EqualFold" {
			c.pure("equalfold")
			return
		}
		c.ret(c.s, streq(c.str(0), c.str(1)))
	})
	e.model("bytes.HasPrefix strings.HasPrefix", func(c *Call) { c.ret(c.s, App("hasprefix", c.str(0), c.str(1))) })
	e.model("bytes.Join", func(c *Call) {
		s := c.s
		var segs []*V
		items := s.items(c.args[0])
		for i, g := range items {
			n, ok := isInt(g.A[0])
			if g.S != "el" || !ok || n != 1 {
				c.ret(s, s.mkBytes(s.opaqueBytes("joined", 0), "fresh"))
				return
			}
			if i > 0 {
				segs = append(segs, c.str(1).A...)
			}
			segs = append(segs, s.content(g.A[1]).A...)
		}
		c.ret(s, s.mkBytes(StrV(segs), "fresh"))
	})
	e.model("bytes.Repeat", func(c *Call) { c.ret(c.s, c.s.mkBytes(c.s.opaqueBytes("repeated", 0), "fresh")) })
	e.model("bytes.Clone", func(c *Call) {
		s := c.s
		a := c.args[0]
		if s.nilness(a) == 1 {
			c.ret(s, nilSlice())
			return
		}
		r := s.mkBytes(s.content(a), "fresh")
		if s.nilness(a) != 0 {
			r = SliceV(r.Obj, r.A[0], r.A[1], r.A[2], isNilTermS(a))
		}
		c.ret(s, r)
	})
	e.model("bytes.NewBuffer bytes.NewReader bytes.NewBufferString", func(c *Call) {
		o := c.s.newObj(KCell, elemType(c.resType(0)), "fresh")
		o.Attrs["buf"] = c.str(0)
		if c.args[0].Op == OSlice && c.args[0].Obj != 0 {
			o.Attrs["alias"] = Float(c.s.regionOfSlice(c.args[0]))
		}
		o.Val = App("zero:" + typeKey(o.T))
		c.ret(c.s, Ptr(o.ID))
	})
	bufOf := func(s *State, p *V) (*V, ObjID) {
		if p.Op == OIface {
			p = p.A[0]
		}
		if p.Op == OPtr && len(p.A) == 0 {
			if b := s.attr(p.Obj, "buf"); b != nil {
				return s.rw(b), p.Obj
			}
			if o := s.obj(p.Obj); o.Val != nil && o.Val.Op == OApp && strings.HasPrefix(o.Val.S, "zero:bytes.Buffer") {
				return vEmptyStr, p.Obj
			}
		}
		return nil, 0
	}
	write := func(c *Call) {
		s := c.s
		b, id := bufOf(s, c.args[0])
		if id != 0 {
			var add *V
			if strings.HasSuffix(c.name, "WriteByte") {
				o := &Obj{Bytes: true}
				add = StrV([]*V{elSeg(o, c.args[1])})
			} else {
				add = c.str(1)
			}
			s.setAttr(id, "buf", StrV(append(append([]*V(nil), b.A...), add.A...)))
		}
		if c.res.Len() == 1 {
			c.ret(s, vNil)
		} else {
			c.ret(s, s.lenOf(c.args[1]), vNil)
		}
	}
	e.model("(*bytes.Buffer).Write (*bytes.Buffer).WriteString (*bytes.Buffer).WriteByte (*strings.Builder).WriteString (*strings.Builder).Write (*strings.Builder).WriteByte", write)
	e.model("(*bytes.Buffer).Bytes", func(c *Call) {
		if b, id := bufOf(c.s, c.args[0]); id != 0 {
			c.ret(c.s, c.s.mkBytes(b, "fresh"))
			return
		}
		c.e.unmodelled(c)
	})
	e.model("(*bytes.Buffer).String (*strings.Builder).String", func(c *Call) {
		if b, id := bufOf(c.s, c.args[0]); id != 0 {
			c.ret(c.s, b)
			return
		}
		c.e.unmodelled(c)
	})
	e.model("(*bytes.Buffer).Len (*bytes.Reader).Len", func(c *Call) {
		if b, id := bufOf(c.s, c.args[0]); id != 0 {
			c.ret(c.s, strLen(b))
			return
		}
		c.e.unmodelled(c)
	})
	e.model("(*bytes.Buffer).Next", func(c *Call) {
		s := c.s
		b, id := bufOf(s, c.args[0])
		if id == 0 || !s.le(c.args[1], strLen(b)) {
			c.e.unmodelled(c)
			return
		}
		r := "fresh"
		if a := s.attr(id, "alias"); a != nil {
			r = a.S
		}
		s.setAttr(id, "buf", subStr(s, b.A, c.args[1], Sub(strLen(b), c.args[1])))
		c.ret(s, s.mkBytes(subStr(s, b.A, Int(0), c.args[1]), r))
	})

	// binary
	order := func(n string) string {
		if strings.Contains(n, "littleEndian") || strings.Contains(n, "LittleEndian") {
			return "le64"
		}
		return "be64"
	}
	for _, o := range []string{"bigEndian", "littleEndian"} {
		o := o
		e.model("(encoding/binary."+o+").PutUint64", func(c *Call) {
			s := c.s
			b := c.args[1]
			if !e.inRange(s, Int(7), s.sliceLen(b), c.pos()) {
				return
			}
			if b.Op == OSlice && b.Obj != 0 {
				ob := s.mut(b.Obj)
				e.onWrite(s, ob, Ptr(b.Obj, b.A[0]))
				s.overwrite(ob, s.rw(b.A[0]), []*V{Seg(order(o), Int(8), c.args[2])})
			}
			c.ret(s)
		})
		e.model("(encoding/binary."+o+").Uint64", func(c *Call) {
			s := c.s
			b := c.args[1]
			if !e.inRange(s, Int(7), s.sliceLen(b), c.pos()) {
				return
			}
			c.ret(s, decode64(subStr(s, s.content(b).A, Int(0), Int(8)), order(o)))
		})
		e.model("(encoding/binary."+o+").AppendUint64", func(c *Call) {
			s := c.s
			w := s.mkBytes(StrV([]*V{Seg(order(o), Int(8), c.args[2])}), "fresh")
			c2 := *c
			c2.args = []*V{c.args[1], w}
			e.doAppend(&c2)
			c.out = c2.out
		})
	}
	e.model("encoding/binary.Read", func(c *Call) {
		s := c.s
		b, id := bufOf(s, c.args[0])
		ord := "be64"
		if c.args[1].Op == OIface {
			ord = order(typeKey(c.args[1].T))
		} else {
			ord = "unknown64"
		}
		dst := c.args[2]
		var pt types.Type
		if dst.Op == OIface {
			pt = dst.T
			dst = dst.A[0]
		}
		size := int64(0)
		if pt != nil {
			if u, ok := under(elemType(pt)).(*types.Basic); ok {
				switch u.Kind() {
				case types.Uint64, types.Int64:
					size = 8
				case types.Uint32, types.Int32:
					size = 4
				case types.Uint16, types.Int16:
					size = 2
				case types.Uint8, types.Int8:
					size = 1
				}
			}
		}
		if id == 0 || size == 0 || dst.Op != OPtr {
			if dst.Op == OPtr {
				s.store(dst, s.reify(s.sym("decoded", elemType(pt)), elemType(pt)))
			}
			c.fails("binary.Read", func(t *State, err *V) { c.ret(t, err) })
			c.ret(s, vNil)
			return
		}
		short := GE(AddN(Sub(Int(size), strLen(b)), -1))
		t := s
		if s.truth(short) != 0 {
			t = s.clone()
			if s.assume(short, true) {
				x := mkErr(s, "short buffer")
				s.note(c.pos(), "the buffer is too short for binary.Read")
				s.failed("binary.Read", x)
				c.ret(s, x)
			}
			if !t.assume(short, false) {
				return
			}
		}
		b = t.rw(b)
		word := subStr(t, b.A, Int(0), Int(size))
		var v *V
		if size == 8 {
			v = decode64(word, ord)
		} else {
			v = App("decode:"+ord, Int(size), word)
		}
		t.store(dst, v)
		t.setAttr(id, "buf", subStr(t, b.A, Int(size), AddN(strLen(b), -size)))
		c.ret(t, vNil)
	})
	e.model("encoding/binary.Write", func(c *Call) {
		s := c.s
		b, id := bufOf(s, c.args[0])
		if id != 0 && c.args[1].Op == OIface && c.args[2].Op == OIface {
			if u, ok := under(c.args[2].T).(*types.Basic); ok && (u.Kind() == types.Uint64 || u.Kind() == types.Int64) {
				s.setAttr(id, "buf", StrV(append(append([]*V(nil), b.A...), Seg(order(typeKey(c.args[1].T)), Int(8), c.args[2].A[0]))))
				c.ret(s, vNil)
				return
			}
		}
		if id != 0 {
			s.setAttr(id, "buf", s.opaqueBytes("written", 0))
		}
		c.ret(s, vNil)
	})

	// sync
	lockAt := func(c *Call) string {
		k := c.args[0].String()
		lockPtrs[k] = c.args[0]
		return k
	}
	e.model("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(c *Call) {
		s := c.s
		k := lockAt(c)
		if s.locks[k] != 0 {
			e.onDeadlock(c, k)
			return
		}
		s.locks[k] = 1
		e.refresh(s)
		c.ret(s)
	})
	e.model("(*sync.RWMutex).RLock", func(c *Call) {
		s := c.s
		k := lockAt(c)
		if s.locks[k] > 0 {
			e.onDeadlock(c, k)
			return
		}
		if s.locks[k] == 0 {
			e.refresh(s)
		}
		s.locks[k]--
		c.ret(s)
	})
	e.model("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(c *Call) {
		s := c.s
		k := lockAt(c)
		if s.locks[k] != 1 {
			e.violate("C17", "unlock:"+e.siteKey(s), "unlock of a lock that is not held", s, c.pos())
			return
		}
		e.treapCommit(s)
		delete(s.locks, k)
		s.unlocked(k)
		c.ret(s)
	})
	e.model("(*sync.RWMutex).RUnlock", func(c *Call) {
		s := c.s
		k := lockAt(c)
		if s.locks[k] >= 0 {
			e.violate("C17", "unlock:"+e.siteKey(s), "unlock of a lock that is not held", s, c.pos())
			return
		}
		s.locks[k]++
		if s.locks[k] == 0 {
			delete(s.locks, k)
		}
		c.ret(s)
	})

	// os
	e.model("os.Stat os.Lstat", func(c *Call) {
		t := c.s.clone()
		err := mkErr(t, "stat")
		c.ret(t, vNil, err)
		x := c.s.sym("fileinfo", nil)
		symOf(x).nonnil = true
		c.ret(c.s, x, vNil)
	})
	e.model("os.IsNotExist os.IsExist", func(c *Call) {
		if c.s.nilness(c.args[0]) == 1 {
			c.ret(c.s, vFalse)
			return
		}
		c.ret(c.s, App("is"+shortName(c.name), c.args[0]))
	})
	e.model("os.MkdirAll os.Mkdir", func(c *Call) {
		c.fails("mkdir", func(t *State, err *V) { c.ret(t, err) })
		c.ret(c.s, vNil)
	})
	for _, n := range strings.Fields("strings.HasSuffix strings.TrimSpace strings.ToLower strings.ToUpper strings.Trim strings.TrimSuffix strings.Replace strings.Join bytes.HasSuffix strconv.FormatFloat strconv.Quote math.Abs math.Sqrt math.Sin math.Cos math.Floor math.IsNaN math.Min math.Max") {
		n := n
		e.model(n, func(c *Call) { c.pure(n) })
	}
	e.model("fmt.Sprintf fmt.Sprint fmt.Sprintln", func(c *Call) {
		c.ret(c.s, c.s.reify(c.s.sym("formatted", types.Typ[types.String]), types.Typ[types.String]))
	})
}

func (e *Engine) onDeadlock(c *Call, k string) {
	e.violate("C17", "relock:"+e.siteKey(c.s), "the lock taken here is already held by the same operation", c.s, c.pos())
}
