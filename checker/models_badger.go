package main

import "go/types"

// badger: a transaction is the unit of atomicity and isolation (conflicts are
// detected when it commits) and a read transaction is a snapshot.
func (e *Engine) badgerModels() {
	const p = "github.com/dgraph-io/badger"
	const region = "store:badger"
	db, tx, it, im := "(*"+p+".DB).", "(*"+p+".Txn).", "(*"+p+".Iterator).", "(*"+p+".Item)."
	named := func(n string) types.Type { return e.extType(p, n) }
	glob := func(s *State, n string) *V {
		return s.obj(s.global(e.prog.ImportedPackage(p).Var(n)).Obj).Val
	}

	e.model(p+".DefaultOptions", func(c *Call) {
		s := c.s
		t := c.resType(0)
		x := App("badgerdefaults", c.str(0))
		v := s.expand(x, t)
		st := structOf(t)
		fs := append([]*V(nil), v.A...)
		for i := range fs {
			switch st.Field(i).Name() {
			case "SyncWrites":
				fs[i] = vTrue
			case "Dir", "ValueDir":
				fs[i] = c.str(0)
			case "ReadOnly", "Truncate":
				fs[i] = vFalse
			}
		}
		c.ret(s, Struct(t, fs))
	})
	e.model(p+".Open", func(c *Call) {
		for _, n := range []string{"Dir", "ValueDir"} {
			if d := c.s.fieldOf(c.args[0], c.types[0], n); d != nil {
				e.pathUsed(c, c.s.rw(c.s.content(d)))
			}
		}
		c.fails("open", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		o := s.newRes("db", named("DB"), "engine")
		t := c.types[0]
		o.Attrs["opts"] = c.args[0]
		if d := s.fieldOf(c.args[0], t, "Dir"); d != nil {
			o.Attrs["path"] = s.rw(s.content(d))
		}
		if d := s.fieldOf(c.args[0], t, "SyncWrites"); d != nil {
			e.require("C07", "sync:badger", s.truth(d) == 1, "the engine is opened without synchronous writes", s, c.pos())
		}
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(db+"Close", func(c *Call) {
		if o := c.recvObj(); o != nil {
			c.s.release(o.ID)
		}
		c.fails("close", func(t *State, err *V) { c.ret(t, err) })
		c.ret(c.s, vNil)
	})
	begin := func(s *State, writable *V) *Obj {
		o := s.newRes("tx", named("Txn"), "engine")
		if writable != vTrue {
			o.Attrs["res"] = Float("rtx")
		} else {
			s.retried()
		}
		if s.ghostOn("snapshot") {
			o.Attrs["late"] = vTrue
		}
		l := s.newObjAt(s.here()+"log", KArr, nil, "ghost", 0)
		o.Attrs["log"] = Ref(l.ID)
		return o
	}
	e.model(db+"NewTransaction", func(c *Call) {
		o := begin(c.s, c.args[1])
		c.ret(c.s, Ptr(o.ID))
	})
	openIters := func(c *Call, id ObjID) bool {
		for _, o := range c.s.openRes("iter") {
			if x := o.Attrs["src"]; x != nil && x.Obj == id {
				e.panicAt(c.s, "engine", "the transaction ends while one of its iterators is open", c.pos())
				e.violate("C01", "iteropen:"+e.siteKey(c.s), "the transaction ends while one of its iterators is open: the engine panics", c.s, c.pos())
				return true
			}
		}
		return false
	}
	discard := func(c *Call) {
		o := c.recvObj()
		if o == nil {
			c.ret(c.s)
			return
		}
		if c.s.isOpen(o.ID) {
			if openIters(c, o.ID) {
				return
			}
			c.s.release(o.ID)
		}
		c.ret(c.s)
	}
	e.model(tx+"Discard", discard)
	commit := func(c *Call, s *State, id ObjID, ok func(t *State), fail func(t *State, err *V)) {
		if s.attrStr(id, "res") == "rtx" {
			s.release(id)
			ok(s)
			return
		}
		for _, conflict := range []bool{false, true} {
			t := s.clone()
			err := mkErr(t, "commit")
			if conflict {
				err = glob(t, "ErrConflict")
			}
			t.note(c.pos(), "the commit fails")
			t.failed("commit", err)
			t.release(id)
			fail(t, err)
		}
		c2 := *c
		c2.s = s
		e.isolated(&c2, id)
		log := s.attr(id, "log").Obj
		s.release(id)
		s.committed(log)
		ok(s)
	}
	e.model(tx+"Commit", func(c *Call) {
		o := c.recvObj()
		if !e.txOpen(c, o) || openIters(c, o.ID) {
			return
		}
		commit(c, c.s, o.ID, func(t *State) { c.ret(t, vNil) }, func(t *State, err *V) { c.ret(t, err) })
	})
	managed := func(writable *V) func(c *Call) {
		return func(c *Call) {
			s := c.s
			o := begin(s, writable)
			id := o.ID
			s.top().args = c.args
			outs := e.callback(s, c.args[1], []*V{Ptr(id)}, "btx", func(e *Engine, s *State, res []*V) []*State {
				c2 := *c
				c2.s = s
				c2.out = nil
				s.forkNil(res[0], func(t *State, isnil bool) {
					c3 := c2
					c3.s = t
					if openIters(&c3, id) {
						return
					}
					if !isnil {
						t.release(id)
						t.assign(res[0])
						c2.out = append(c2.out, t)
						return
					}
					commit(&c3, t, id, func(t *State) { t.assign(vNil); c2.out = append(c2.out, t) },
						func(t *State, err *V) { t.assign(err); c2.out = append(c2.out, t) })
				})
				return c2.out
			})
			c.out = append(c.out, outs...)
		}
	}
	e.model(db+"Update", managed(vTrue))
	e.model(db+"View", managed(vFalse))
	w := func(c *Call, kind string, key, val *V) {
		o := c.recvObj()
		if !e.txOpen(c, o) {
			return
		}
		c.fails(kind, func(t *State, err *V) { c.ret(t, err) })
		c.fails(kind, func(t *State, err *V) { c.ret(t, glob(t, "ErrTxnTooBig")) })
		c.engineWrite(c.s.attr(o.ID, "log").Obj, kind, key, val)
		c.ret(c.s, vNil)
	}
	e.model(tx+"Set", func(c *Call) { w(c, "put", c.str(1), c.str(2)) })
	e.model(tx+"Delete", func(c *Call) { w(c, "del", c.str(1), nil) })
	e.model(p+".NewEntry", func(c *Call) {
		o := c.s.newObj(KCell, elemType(c.resType(0)), "fresh")
		o.Val = zero(o.T)
		c.s.setFieldOf(o, "Key", c.args[0])
		c.s.setFieldOf(o, "Value", c.args[1])
		c.ret(c.s, Ptr(o.ID))
	})
	e.model(tx+"SetEntry", func(c *Call) {
		s := c.s
		w(c, "put", s.rw(s.content(s.objField(c.args[1], "Key"))), s.rw(s.content(s.objField(c.args[1], "Value"))))
	})
	item := func(s *State, key, content *V, src *V) *V {
		o := s.newObjAt(s.here()+"item", KCell, named("Item"), "engine", 0)
		o.Val = vNil
		o.Attrs["key"] = key
		o.Attrs["content"] = content
		return Ptr(o.ID)
	}
	e.model(tx+"Get", func(c *Call) {
		o := c.recvObj()
		if !e.useRes(c, o.ID) {
			return
		}
		key := c.str(1)
		c.fails("get", func(t *State, err *V) { c.ret(t, vNil, err) })
		if s := c.s; s.truth(Eq0(strLen(key))) != 0 {
			t := s.clone()
			if t.assume(Eq0(strLen(key)), true) {
				// an empty key is never stored
				if t.assume(presentTerm(t.rw(key)), false) {
					t.note(c.pos(), "the key is empty")
					c.ret(t, vNil, glob(t, "ErrEmptyKey"))
				}
			}
			if !s.assume(Eq0(strLen(key)), false) {
				return
			}
		}
		c.engineRead(Ref(o.ID), key, false,
			func(t *State) { c.ret(t, vNil, glob(t, "ErrKeyNotFound")) },
			func(t *State, content *V) { c.ret(t, item(t, key, content, Ref(o.ID)), vNil) })
	})
	e.model(tx+"NewIterator", func(c *Call) {
		o := c.recvObj()
		if !e.useRes(c, o.ID) {
			return
		}
		e.snapshotRead(c, o.ID, "scan")
		s := c.s
		cu := e.newCursor(c, s, "iter", named("Iterator"), Ref(o.ID), region)
		if pf := s.fieldOf(c.args[1], c.types[1], "Prefix"); pf != nil && s.nilness(pf) != 1 {
			if x := s.rw(s.content(pf)); len(x.A) > 0 {
				cu.Attrs["prefix"] = x
			}
		}
		c.ret(s, Ptr(cu.ID))
	})
	// DefaultIteratorOptions is a variable of the package: no prefix, forwards
	move := func(c *Call, lower, prev *V) {
		e.cursorMove(c, c.s, c.args[0].Obj, lower, prev, func(t *State) { c.ret(t) }, func(t *State, k *V) { c.ret(t) })
	}
	e.model(it+"Seek", func(c *Call) {
		if !e.useRes(c, c.args[0].Obj) {
			return
		}
		lo := c.str(1)
		if len(lo.A) == 0 {
			lo = nil
		}
		move(c, lo, nil)
	})
	e.model(it+"Rewind", func(c *Call) {
		if e.useRes(c, c.args[0].Obj) {
			move(c, nil, nil)
		}
	})
	cur := func(c *Call) *V {
		x := c.s.attr(c.args[0].Obj, "cur")
		if x == nil || x.Op == ONil {
			return nil
		}
		return x
	}
	e.model(it+"Next", func(c *Call) {
		x := cur(c)
		if x == nil || !c.s.isOpen(c.args[0].Obj) {
			e.panicAt(c.s, "engine", "Next on an exhausted badger iterator", c.pos())
			return
		}
		move(c, nil, x)
	})
	e.model(it+"Valid", func(c *Call) { c.ret(c.s, Bool(cur(c) != nil)) })
	e.model(it+"ValidForPrefix", func(c *Call) {
		x := cur(c)
		if x == nil {
			c.ret(c.s, vFalse)
			return
		}
		c.ret(c.s, App("hasprefix", x, c.str(1)))
	})
	e.model(it+"Item", func(c *Call) {
		x := cur(c)
		if x == nil {
			e.panicAt(c.s, "engine", "Item of an exhausted badger iterator", c.pos())
			return
		}
		c.ret(c.s, item(c.s, x, valueOf(x), c.s.attr(c.args[0].Obj, "src")))
	})
	e.model(it+"Close", func(c *Call) {
		c.s.setAttr(c.args[0].Obj, "cur", vNil)
		c.s.release(c.args[0].Obj)
		c.ret(c.s)
	})
	copyTo := func(s *State, content, dst *V) *V {
		r := s.memOf(content, "fresh", "copy")
		if s.nilness(dst) == 1 {
			return SliceV(r.Obj, r.A[0], r.A[1], r.A[2], s.rw(Eq0(strLen(content))))
		}
		if s.nilness(dst) == -1 {
			return SliceV(r.Obj, r.A[0], r.A[1], r.A[2], s.sym("copyisnil", nil))
		}
		return r
	}
	e.model(im+"Key", func(c *Call) {
		c.ret(c.s, c.s.memOf(c.s.attr(c.args[0].Obj, "key"), region, "k"))
	})
	e.model(im+"KeyCopy", func(c *Call) {
		c.ret(c.s, copyTo(c.s, c.s.attr(c.args[0].Obj, "key"), c.args[1]))
	})
	e.model(im+"ValueCopy", func(c *Call) {
		c.fails("value", func(t *State, err *V) { c.ret(t, nilSlice(), err) })
		c.ret(c.s, copyTo(c.s, c.s.attr(c.args[0].Obj, "content"), c.args[1]), vNil)
	})
	e.model(im+"Value", func(c *Call) {
		s := c.s
		c.fails("value", func(t *State, err *V) { c.ret(t, err) })
		v := s.memOf(s.attr(c.args[0].Obj, "content"), region, "v")
		s.top().args = c.args
		outs := e.callback(s, c.args[1], []*V{v}, "val", func(e *Engine, s *State, res []*V) []*State {
			s.assign(res[0])
			return []*State{s}
		})
		c.out = append(c.out, outs...)
	})
	e.model(im+"ValueSize "+im+"EstimatedSize "+im+"KeySize", func(c *Call) { c.pure(c.name) })
}
