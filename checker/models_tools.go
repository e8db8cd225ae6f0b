package main

import (
	"strconv"
	"strings"
)

// Text: searching, splitting and numbers.

// find decides where sub occurs first in str: nowhere (-1), at the start, or
// later.
func (s *State) find(str, sub *V, f func(t *State, at *V)) {
	if a, ok := strConst(str); ok {
		if b, ok := strConst(sub); ok {
			f(s, Int(int64(strings.Index(a, b))))
			return
		}
	}
	p := App("strindex", str, sub)
	b, known := strConst(sub)
	room := Sub(strLen(str), strLen(sub))
	if n := s.clone(); n.assume(Eq0(AddN(p, 1)), true) {
		f(n, Int(-1))
	}
	if n := s.clone(); n.assume(Eq0(p), true) && n.assume(GE(room), true) {
		ok := true
		for i := 0; known && ok && i < len(b); i++ {
			ok = n.assume(Eq0(AddN(n.byteAt(str, Int(int64(i))), -int64(b[i]))), true)
		}
		if ok {
			f(n, Int(0))
		}
	}
	if s.assume(GE(AddN(p, -1)), true) && s.assume(GE(Sub(room, p)), true) {
		f(s, p)
	}
}

func (e *Engine) textModels() {
	char := func(v *V) *V {
		if n, ok := isInt(v); ok {
			return StrConst(string(rune(n)))
		}
		return StrV([]*V{Seg("op", App("len", App("char", v)), App("char", v), Int(0))})
	}
	search := func(names string, sub func(c *Call) *V, f func(c *Call, t *State, str, sub, at *V)) {
		e.model(names, func(c *Call) {
			str, x := c.str(0), sub(c)
			c.s.find(str, x, func(t *State, at *V) { f(c, t, str, x, at) })
		})
	}
	text := func(c *Call) *V { return c.str(1) }
	letter := func(c *Call) *V { return char(c.s.rw(c.args[1])) }
	has := func(c *Call, t *State, str, sub, at *V) { c.ret(t, Bool(at != Int(-1))) }
	where := func(c *Call, t *State, str, sub, at *V) { c.ret(t, at) }
	search("strings.Contains bytes.Contains", text, has)
	search("strings.ContainsRune", letter, has)
	search("strings.Index bytes.Index", text, where)
	search("strings.IndexByte strings.IndexRune bytes.IndexByte", letter, where)
	search("strings.Cut", text, func(c *Call, t *State, str, sub, at *V) {
		if at == Int(-1) {
			c.ret(t, str, StrConst(""), vFalse)
			return
		}
		from := Add(at, strLen(sub))
		c.ret(t, subStr(t, str.A, Int(0), at), subStr(t, str.A, from, Sub(strLen(str), from)), vTrue)
	})
	e.model("strings.TrimPrefix", func(c *Call) {
		str, x := c.str(0), c.str(1)
		h := App("hasprefix", str, x)
		for _, b := range []bool{true, false} {
			t := c.s
			if b {
				t = t.clone()
			}
			if !t.assume(h, b) {
				continue
			}
			if b {
				if t.assume(GE(Sub(strLen(str), strLen(x))), true) {
					c.ret(t, subStr(t, str.A, strLen(x), Sub(strLen(str), strLen(x))))
				}
			} else {
				c.ret(t, str)
			}
		}
	})

	// numbers
	number := func(name string, min *V, parse func(c *Call, s string) (int64, error)) {
		e.model("strconv."+name, func(c *Call) {
			s, str := c.s, c.str(0)
			if x, ok := strConst(str); ok {
				if n, err := parse(c, x); err == nil {
					c.ret(s, Int(n), vNil)
				} else {
					s.rejected(name)
					c.ret(s, Int(0), mkErr(s, name))
				}
				return
			}
			as := []*V{str}
			for _, a := range c.args[1:] {
				as = append(as, s.rw(a))
			}
			ok := App("isnumber", append([]*V{Float(name)}, as...)...)
			n := App("number", append([]*V{Float(name)}, as...)...)
			t := s.clone()
			if t.assume(ok, true) && (min == nil || t.assume(GE(Sub(n, min)), true)) && t.assume(GE(AddN(strLen(str), -1)), true) {
				c.ret(t, n, vNil)
			}
			if s.assume(ok, false) {
				err := mkErr(s, name)
				s.rejected(name)
				c.ret(s, Int(0), err)
			}
		})
	}
	base := func(c *Call) (int, int) {
		b, _ := isInt(c.s.rw(c.args[1]))
		n, _ := isInt(c.s.rw(c.args[2]))
		return int(b), int(n)
	}
	number("Atoi", nil, func(c *Call, s string) (int64, error) {
		n, err := strconv.Atoi(s)
		return int64(n), err
	})
	number("ParseInt", nil, func(c *Call, s string) (int64, error) {
		b, n := base(c)
		return strconv.ParseInt(s, b, n)
	})
	number("ParseUint", Int(0), func(c *Call, s string) (int64, error) {
		b, n := base(c)
		if n > 62 || n == 0 {
			n = 62
		}
		v, err := strconv.ParseUint(s, b, n)
		return int64(v), err
	})
	e.model("strconv.FormatUint strconv.FormatInt", func(c *Call) { c.ret(c.s, c.rv(App("decimal", c.s.rw(c.args[0]), c.s.rw(c.args[1])))) })
	e.model("strconv.Itoa", func(c *Call) { c.ret(c.s, c.rv(App("decimal", c.s.rw(c.args[0]), Int(10)))) })

	// cells
	e.model("client.watchCells", func(c *Call) {
		c.s.ghost["cells"] = vTrue
		c.ret(c.s)
	})
	e.model("client.isCell", func(c *Call) {
		op, _ := strConst(c.str(0))
		x := c.s.rw(c.args[1])
		walk(x, func(n *V) {
			if n.Op == OApp && n.S == "number" {
				e.require("C34", "number:"+op, c.s.proveGE(n), "a negative number is taken for a cell"+e.dbg("%v", x), c.s, c.pos())
			}
		})
		e.require("C34", "valid:"+op, c.s.truth(App("validcell", x)) == 1, "a cell that need not be valid is returned"+e.dbg("%v", x), c.s, c.pos())
		c.ret(c.s)
	})
}

// rejected notes that something the request consists of is malformed.
func (s *State) rejected(what string) {
	if s.ghostOn("request") && s.ghost["bad"] == nil {
		s.ghost["bad"] = Float(what)
	}
}

// validCell decides whether the cell x is valid from how it is made.
func (s *State) validCell(x *V) int {
	if x.Op == OInt && x.N == 0 {
		return 0
	}
	if x.Op != OApp {
		return -1
	}
	switch x.S {
	case "leaf":
		return 1
	case "facecell":
		if s.proveGE(x.A[0]) && s.proveGE(AddN(MulN(x.A[0], -1), 5)) {
			return 1
		}
	case "child":
		if s.truth(App("validcell", x.A[0])) == 1 && s.truth(s.leafTerm(x.A[0])) == 0 {
			return 1
		}
	case "parent":
		if s.truth(App("validcell", x.A[0])) == 1 && s.proveGE(x.A[1]) && s.proveGE(Sub(s.level(x.A[0]), x.A[1])) {
			return 1
		}
	}
	return -1
}

// keepCells turns what follows from how cells are made into facts, which
// survive when the cells of several iterations become one.
func (s *State) keepCells() {
	if !s.ghostOn("cells") {
		return
	}
	seen := map[*V]bool{}
	note := func(v *V) {
		if v == nil {
			return
		}
		walk(v, func(x *V) {
			if x.Op == OApp && !seen[x] && (x.S == "facecell" || x.S == "child" || x.S == "parent") {
				seen[x] = true
				c := App("validcell", x)
				if _, ok := s.facts[c]; !ok && s.validCell(x) == 1 {
					s.facts[c] = true
				}
			}
		})
	}
	for _, o := range s.heap {
		note(o.Val)
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			note(v)
		}
	}
}
