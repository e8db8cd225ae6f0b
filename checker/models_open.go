package main

import (
	"go/token"
	"go/types"
)

// Opening stores: what they hand to the engine for each option, what they
// leave behind when they fail; compaction.

// option describes what an engine setting follows from.
type option struct {
	key  string
	t    types.Type
	want func(e *Engine, s *State, v *V) *V // nil: the value itself
	neg  bool                               // of booleans: the opposite
	def  *V
}

func fromFloat(e *Engine, s *State, v *V) *V {
	return e.convert(s, v, types.Typ[types.Float64], types.Typ[types.Int])
}

// setting checks that an engine setting has the value of its option in the
// configuration of the client, or its default when the option is absent.
func (e *Engine) setting(s *State, pos token.Pos, o option, got func(s *State) *V) {
	cfg := s.ghost["config"]
	if cfg == nil {
		return
	}
	k := StrConst(o.key)
	has, x := App("maphas", cfg, k), App("mapget", cfg, k)
	is := App("istype:"+typeKey(o.t), x)
	name := "option:" + o.key + ":" + s.ghostStr("backend")
	if t := s.clone(); t.assume(App("isnil", cfg), false) && t.assume(has, true) && t.assume(App("isnil", x), false) && t.assume(is, true) {
		t.note(pos, "the option "+o.key+" is given")
		v := t.reify(App("as:"+typeKey(o.t), x), o.t)
		msg := "the engine setting of the option " + o.key + " does not have the value of the option"
		if o.want == nil && under(o.t) == types.Typ[types.Bool] {
			for _, b := range []bool{true, false} {
				u := t.clone()
				if !u.assume(v, b) {
					continue
				}
				w := 0
				if b != o.neg {
					w = 1
				}
				g := got(u)
				e.require("C20", name, g != nil && u.truth(u.rw(g)) == w, msg+e.dbg(" %v", g), u, pos)
			}
		} else {
			if o.want != nil {
				v = o.want(e, t, v)
			}
			g := got(t)
			e.require("C20", name, g != nil && e.sameSetting(t, g, v), msg+e.dbg(" %v for %v", g, v), t, pos)
		}
	}
	for _, isnil := range []bool{true, false} {
		t := s.clone()
		if !t.assume(App("isnil", cfg), isnil) || !isnil && !t.assume(has, false) {
			continue
		}
		t.note(pos, "the option "+o.key+" is absent")
		g := got(t)
		e.require("C20", "default:"+o.key+":"+s.ghostStr("backend"), g != nil && e.sameSetting(t, g, o.def), "the engine setting of the option "+o.key+" is changed although the option is absent"+e.dbg(" %v for %v", g, o.def), t, pos)
	}
}

func (e *Engine) sameSetting(s *State, g, v *V) bool {
	g, v = s.rw(g), s.rw(v)
	if g == v {
		return true
	}
	switch {
	case v == vTrue || v == vFalse:
		return s.truth(g) == 1 == (v == vTrue) && s.truth(g) >= 0
	case v.Op == OStr || g.Op == OStr:
		return s.truth(streq(g, v)) == 1
	case g.Op == ONil || v.Op == ONil:
		return s.nilness(g) == 1 && s.nilness(v) == 1
	}
	return s.eq(g, v)
}

// pathUsed: the engine is opened at the path of the configuration.
func (e *Engine) pathUsed(c *Call, p *V) {
	s := c.s
	cfg := s.ghost["config"]
	if cfg == nil {
		return
	}
	k := StrConst("path")
	x := App("mapget", cfg, k)
	ok := s.pathGiven(cfg)
	e.require("C20", "path:"+s.ghostStr("backend"), ok, "the engine is opened although the configuration has no path", s, c.pos())
	if ok {
		v := s.reify(App("as:string", x), types.Typ[types.String])
		e.require("C20", "at:"+s.ghostStr("backend"), s.truth(streq(s.rw(p), s.rw(v))) == 1, "the engine is not opened at the path of the configuration"+e.dbg("%v", p), s, c.pos())
		e.require("C20", "empty:"+s.ghostStr("backend"), s.proveGE(AddN(strLen(s.rw(v)), -1)), "an empty path is not rejected", s, c.pos())
	}
	s.ghost["openedat"] = vTrue
}

// pathGiven: the configuration is known to have a path that is a string.
func (s *State) pathGiven(cfg *V) bool {
	k := StrConst("path")
	return s.truth(App("maphas", cfg, k)) == 1 && s.truth(App("istype:string", App("mapget", cfg, k))) == 1
}

// pathRejected: the path is known to be missing, or of another type.
func (s *State) pathRejected(cfg *V) bool {
	k := StrConst("path")
	x := App("mapget", cfg, k)
	return s.truth(App("isnil", cfg)) == 1 || s.truth(App("maphas", cfg, k)) == 0 || s.truth(App("isnil", x)) == 1 || s.truth(App("istype:string", x)) == 0
}

// otherOption: k is an option of the client's configuration other than the path
// and the one the client is about, and whether the others are given.
func (s *State) otherOption(m, k *V) (given, other bool) {
	o := s.ghost["option"]
	if o == nil || m != s.ghost["config"] {
		return false, false
	}
	if s.truth(streq(k, o)) != 0 || s.truth(streq(k, StrConst("path"))) != 0 {
		return false, false
	}
	return s.ghost["others"] != nil, true
}

func (e *Engine) openModels() {
	e.model("client.config", func(c *Call) {
		s := c.s
		x := s.sym("client:config", c.resType(0))
		symOf(x).perm = true
		s.ghost["config"] = x
		delete(s.ghost, "fail")
		if len(c.args) > 0 {
			s.ghost["option"] = s.rw(c.args[0])
			t := s.clone()
			t.ghost["others"] = vTrue
			t.note(c.pos(), "every other option is given")
			c.ret(t, t.reify(x, c.resType(0)))
		}
		c.ret(s, s.reify(x, c.resType(0)))
	})
	none := func(v *V) bool { return v.Op == ONil }
	e.model("client.opened", func(c *Call) {
		s := c.s
		st, err := c.args[0], c.args[1]
		b := s.ghostStr("backend")
		cfg := s.ghost["config"]
		s.forkNil(err, func(t *State, isnil bool) {
			if isnil {
				e.require("C19", "store:"+b, !none(st) && t.nilness(st) == 0, "opening a store returns neither a store nor an error", t, c.pos())
				e.require("C19", "reported:"+b, t.ghost["fail"] == nil, "a store is opened although a step of opening it failed", t, c.pos())
				e.require("C20", "needs:"+b, t.pathGiven(cfg), "a configuration without a path is not rejected", t, c.pos())
				if b != "gtreap" {
					e.require("C20", "opens:"+b, t.ghost["openedat"] != nil, "a store is returned without its engine having been opened", t, c.pos())
				} else if v := t.reify(App("as:string", App("mapget", cfg, StrConst("path"))), types.Typ[types.String]); t.pathGiven(cfg) {
					e.require("C20", "empty:"+b, t.eq(strLen(t.rw(v)), Int(0)), "a path, which a store in memory cannot use, is not rejected", t, c.pos())
				}
				if dbs := t.openRes("db"); b == "boltdb" && len(dbs) == 1 {
					e.setting(t, c.pos(), option{key: "nosync", t: types.Typ[types.Bool], def: vFalse}, func(t *State) *V { return t.objField(Ptr(dbs[0].ID), "NoSync") })
				}
				c.ret(t)
				return
			}
			t.note(c.pos(), "opening the store fails")
			e.require("C19", "nothing:"+b, none(st), "opening a store returns both a store and an error", t, c.pos())
			open := t.openRes("db", "tx", "rtx", "snap", "iter")
			what := ""
			if len(open) > 0 {
				what = open[0].Attrs["res"].S
			}
			e.require("C19", "closed:"+b, len(open) == 0, "the store could not be opened, but an engine handle ("+what+") stays open", t, c.pos())
			v := t.reify(App("as:string", App("mapget", cfg, StrConst("path"))), types.Typ[types.String])
			reason := t.ghost["fail"] != nil || t.pathRejected(cfg)
			if b == "gtreap" {
				reason = reason || t.proveGE(AddN(strLen(t.rw(v)), -1))
			} else {
				reason = reason || t.eq(strLen(t.rw(v)), Int(0))
			}
			e.require("C20", "rejected:"+b, reason, "a configuration with a usable path is rejected although nothing failed", t, c.pos())
		})
	})
	e.model("client.opening", func(c *Call) { delete(c.s.ghost, "fail"); c.ret(c.s) })
	e.model("client.openedReader", func(c *Call) {
		s := c.s
		r, err := c.args[0], c.args[1]
		b := s.ghostStr("backend")
		s.forkNil(err, func(t *State, isnil bool) {
			if isnil {
				e.require("C19", "reader:"+b, !none(r), "opening a reader returns neither a reader nor an error", t, c.pos())
				e.require("C19", "snapshot:"+b, t.ghost["fail"] == nil, "a reader is returned although the engine failed to provide a snapshot", t, c.pos())
				c.ret(t)
				return
			}
			t.note(c.pos(), "opening the reader fails")
			e.require("C19", "noreader:"+b, none(r), "opening a reader returns both a reader and an error", t, c.pos())
			open := t.openRes("tx", "rtx", "snap", "iter")
			e.require("C19", "released:"+b, len(open) == 0, "the reader could not be opened, but an engine handle stays open", t, c.pos())
			e.require("C19", "readable:"+b, t.ghost["fail"] != nil, "a reader is refused although nothing failed", t, c.pos())
		})
	})
	e.model("client.size", func(c *Call) {
		c.ret(c.s, c.s.sym("client:size", types.Typ[types.Int]))
	})
	e.model("client.compacting", func(c *Call) {
		c.s.ghost["compact"] = vTrue
		delete(c.s.ghost, "fail")
		c.ret(c.s)
	})
	e.model("client.compacted", func(c *Call) {
		s := c.s
		b := s.ghostStr("backend")
		s.forkNil(c.args[0], func(t *State, isnil bool) {
			if isnil {
				e.require("C21", "reported:"+b, t.ghost["fail"] == nil, "a compaction reports success although something failed: "+t.ghostStr("fail"), t, c.pos())
			}
			open := t.openRes("tx", "rtx", "snap", "iter")
			what := ""
			if len(open) > 0 {
				what = open[0].Attrs["res"].S
			}
			e.require("C21", "closed:"+b, len(open) == 0, "a compaction leaves an engine handle ("+what+") open", t, c.pos())
			c.ret(t)
		})
	})
}

// compactBlocked: a compaction starts a write transaction while one is open.
func (e *Engine) compactBlocked(c *Call) bool {
	s := c.s
	if !s.ghostOn("compact") || len(s.openRes("tx")) == 0 {
		return false
	}
	e.require("C21", "closed:"+s.ghostStr("backend"), false, "a compaction writes through another transaction while one is open: it blocks forever", s, c.pos())
	return true
}

// compactRead: a compaction starts to read entries.  It stops at the third
// iterator that nobody closes.
func (e *Engine) compactRead(c *Call) bool {
	s := c.s
	if !s.ghostOn("compact") {
		return false
	}
	delete(s.ghost, "readin")
	if len(s.openRes("tx")) > 0 {
		s.ghost["readin"] = vTrue
	}
	if len(s.openRes("iter")) < 3 {
		return false
	}
	for _, f := range s.frames {
		if len(f.defers) > 0 {
			return false
		}
	}
	e.require("C21", "closed:"+s.ghostStr("backend"), false, "a compaction opens iterator after iterator without closing them", s, c.pos())
	return true
}

// compactDelete: what a compaction deletes is a dead dictionary entry.
func (e *Engine) compactDelete(c *Call, key *V) {
	s := c.s
	if !s.ghostOn("compact") {
		return
	}
	b := s.ghostStr("backend")
	e.require("C21", "same:"+b, s.ghost["readin"] != nil, "an entry is deleted that was not read in the same write transaction: it may have changed since", s, c.pos())
	ok := key != nil && key.Op == OStr
	e.require("C21", "dictionary:"+b, ok && s.dictKey(s.rw(key)), "an entry is deleted whose key need not start with the dictionary prefix"+e.dbg("%v", key), s, c.pos())
	e.require("C21", "dead:"+b, ok && s.zeroByte(s.rw(valueOf(key))), "an entry is deleted whose value need not be the single zero byte"+e.dbg("%v", key), s, c.pos())
}

// dictKey: the content is known to start with the dictionary prefix.
func (s *State) dictKey(k *V) bool {
	d := StrConst("d")
	if s.truth(App("hasprefix", k, d)) == 1 {
		return true
	}
	if s.proveGE(s.cmp(k, d)) && s.proveGE(AddN(MulN(s.cmp(k, StrConst("e")), -1), -1)) {
		return true
	}
	return s.proveGE(AddN(strLen(k), -1)) && s.firstByte(k, 'd')
}

// zeroByte: the content is known to be the single zero byte.
func (s *State) zeroByte(v *V) bool {
	for _, z := range []*V{StrConst("\x00"), StrV([]*V{Seg("zero", Int(1))})} {
		if s.truth(App("streq", v, z)) == 1 || s.truth(App("streq", z, v)) == 1 || s.eq(s.cmp(v, z), Int(0)) {
			return true
		}
	}
	if len(v.A) == 1 && v.A[0].S == "op" {
		// as it is written where the length is known
		w := StrV([]*V{Seg("op", Int(1), v.A[0].A[1:]...)})
		if s.truth(streq(w, StrV([]*V{Seg("zero", Int(1))}))) == 1 {
			return true
		}
	}
	return s.eq(strLen(v), Int(1)) && s.firstByte(v, 0)
}

func (s *State) firstByte(v *V, b int64) bool {
	if s.eq(s.rw(App("byte", v, Int(0))), Int(b)) {
		return true
	}
	for _, g := range v.A {
		if g.S == "op" {
			return s.eq(s.rw(App("byte", g.A[1], g.A[2])), Int(b))
		}
		break
	}
	return false
}
