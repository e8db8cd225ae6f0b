package main

import "go/types"

// boltdb: a write transaction is the unit of atomicity and isolation, a read
// transaction is a snapshot, and everything read is memory of the mapped file.
func (e *Engine) boltModels() {
	const p = "github.com/boltdb/bolt."
	const region = "store:bolt"
	db, tx, bk, cu := "(*"+p+"DB).", "(*"+p+"Tx).", "(*"+p+"Bucket).", "(*"+p+"Cursor)."
	named := func(n string) types.Type { return e.extType("github.com/boltdb/bolt", n) }

	boltBucket := option{key: "bucket", t: types.Typ[types.String], def: StrConst("bleve")}
	boltFill := Float("1/2")
	e.globalInit["github.com/boltdb/bolt.DefaultOptions"] = func(s *State) *V {
		o := s.newObj(KCell, named("Options"), "global:bolt.DefaultOptions")
		o.Attrs["pinned"] = vTrue
		o.Val = zero(named("Options"))
		return Ptr(o.ID)
	}
	e.model(p+"Open", func(c *Call) {
		e.pathUsed(c, c.str(0))
		opts := c.args[2]
		e.setting(c.s, c.pos(), option{key: "read_only", t: types.Typ[types.Bool], def: vFalse}, func(s *State) *V {
			if opts.Op != OPtr {
				return vFalse
			}
			return s.objField(opts, "ReadOnly")
		})
		c.fails("open", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		o := s.newRes("db", named("DB"), "engine")
		o.Attrs["path"] = c.str(0)
		ro := vFalse
		if x := s.objField(c.args[2], "ReadOnly"); x != nil {
			ro = x
		}
		o.Attrs["opt.ReadOnly"] = ro
		s.setFieldOf(o, "NoSync", vFalse)
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(db+"Close", func(c *Call) {
		o := c.recvObj()
		if o != nil {
			c.s.release(o.ID)
		}
		c.ret(c.s, vNil)
	})
	begin := func(s *State, d *V, writable *V) *Obj {
		o := s.newRes("tx", named("Tx"), "engine")
		if writable != vTrue {
			o.Attrs["res"] = Float("rtx")
		} else {
			s.retried()
		}
		o.Attrs["writable"] = writable
		o.Attrs["db"] = d
		if s.ghostOn("snapshot") {
			o.Attrs["late"] = vTrue
		}
		l := s.newObjAt(s.here()+"log", KArr, nil, "ghost", 0)
		o.Attrs["log"] = Ref(l.ID)
		return o
	}
	// readOnly follows the failure to start a write transaction on a database
	// opened for reading only.
	readOnly := func(c *Call, w *V, fail func(t *State, err *V)) bool {
		s := c.s
		o := c.recvObj()
		if w == vTrue {
			if e.compactBlocked(c) {
				return true
			}
			delete(s.ghost, "readin")
		}
		if w != vTrue || o == nil || s.ghost["config"] == nil || o.Attrs["opt.ReadOnly"] == nil {
			return false
		}
		ro := s.rw(o.Attrs["opt.ReadOnly"])
		if t := s.clone(); t.assume(ro, true) {
			err := mkErr(t, "read only")
			t.note(c.pos(), "the database is read-only")
			fail(t, err)
		}
		return !s.assume(ro, false)
	}
	e.model(db+"Begin", func(c *Call) {
		if readOnly(c, c.args[1], func(t *State, err *V) { c.ret(t, vNil, err) }) {
			return
		}
		c.fails("begin", func(t *State, err *V) { c.ret(t, vNil, err) })
		o := begin(c.s, c.args[0], c.args[1])
		c.ret(c.s, Ptr(o.ID), vNil)
	})
	commit := func(c *Call, s *State, id ObjID, ok func(s *State), fail func(t *State, err *V)) {
		t := s.clone()
		err := mkErr(t, "commit")
		t.note(c.pos(), "the commit fails")
		t.failed("commit", err)
		t.release(id)
		fail(t, err)
		c2 := *c
		c2.s = s
		e.isolated(&c2, id)
		if d := s.attr(id, "db"); d != nil && d.Op == OPtr && s.ghostOn("batch") && s.ghost["config"] == nil {
			x := s.objField(d, "NoSync")
			e.require("C07", "sync:boltdb", x == nil || s.truth(x) == 0, "the batch is committed without asking the engine to sync it", s, c.pos())
		}
		s.release(id)
		s.committed(s.attr(id, "log").Obj)
		ok(s)
	}
	managed := func(writable *V) func(c *Call) {
		return func(c *Call) {
			if readOnly(c, writable, func(t *State, err *V) { c.ret(t, err) }) {
				return
			}
			c.fails("begin", func(t *State, err *V) { c.ret(t, err) })
			s := c.s
			fn := c.args[1]
			o := begin(s, c.args[0], writable)
			id := o.ID
			s.setAttrS(id, "managed", "yes")
			s.top().args = c.args
			outs := e.callback(s, fn, []*V{Ptr(id)}, "tx", func(e *Engine, s *State, res []*V) []*State {
				c2 := *c
				c2.s = s
				c2.out = nil
				if s.heap[id] == nil {
					panic("lost transaction")
				}
				s.forkNil(res[0], func(t *State, isnil bool) {
					if !isnil {
						t.release(id)
						t.assign(res[0])
						c2.out = append(c2.out, t)
						return
					}
					if writable != vTrue {
						t.release(id)
						t.assign(vNil)
						c2.out = append(c2.out, t)
						return
					}
					commit(&c2, t, id, func(t *State) { t.assign(vNil); c2.out = append(c2.out, t) },
						func(t *State, err *V) { t.assign(err); c2.out = append(c2.out, t) })
				})
				return c2.out
			})
			c.out = append(c.out, outs...)
		}
	}
	e.model(db+"Update", managed(vTrue))
	e.model(db+"Batch", managed(vTrue))
	e.model(db+"View", managed(vFalse))
	e.model(tx+"Commit", func(c *Call) {
		o := c.recvObj()
		if !e.txOpen(c, o) {
			return
		}
		commit(c, c.s, o.ID, func(s *State) { c.ret(s, vNil) }, func(t *State, err *V) { c.ret(t, err) })
	})
	e.model(tx+"Rollback", func(c *Call) {
		o := c.recvObj()
		if !c.s.isOpen(o.ID) {
			c.ret(c.s, mkErr(c.s, "tx closed"))
			return
		}
		c.s.release(o.ID)
		c.ret(c.s, vNil)
	})
	e.model(tx+"CreateBucketIfNotExists "+tx+"CreateBucket", func(c *Call) {
		c.fails("create bucket", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		d := s.attr(c.args[0].Obj, "db")
		name := c.str(1)
		e.setting(s, c.pos(), boltBucket, func(*State) *V { return name })
		if d != nil && d.Op == OPtr {
			s.setAttr(d.Obj, "bucket", name)
		}
		o := s.newObj(KCell, named("Bucket"), "engine")
		o.Val = s.reify(s.sym("bucket", named("Bucket")), named("Bucket"))
		s.setFieldOf(o, "FillPercent", boltFill)
		o.Attrs["tx"] = c.args[0]
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(tx+"Bucket", func(c *Call) {
		s := c.s
		tid := c.args[0].Obj
		if !e.txOpen(c, c.recvObj()) {
			return
		}
		d := s.attr(tid, "db")
		name := c.str(1)
		exists := false
		if d != nil && d.Op == OPtr {
			if b := s.attr(d.Obj, "bucket"); b != nil && s.rw(b) == name {
				exists = true
			}
		}
		if d != nil && d.Op == OPtr {
			e.setting(s, c.pos(), boltBucket, func(*State) *V { return name })
		}
		if !exists {
			t := s.clone()
			t.note(c.pos(), "there is no such bucket")
			t.failed("no bucket", nil)
			c.ret(t, vNil)
		}
		o := s.newObj(KCell, named("Bucket"), "engine")
		o.Val = s.reify(s.sym("bucket", named("Bucket")), named("Bucket"))
		s.setFieldOf(o, "FillPercent", boltFill)
		o.Attrs["tx"] = c.args[0]
		s.setAttr(tid, "bucketobj", Ref(o.ID))
		c.ret(s, Ptr(o.ID))
	})
	txOf := func(c *Call) *Obj {
		if t := c.s.attr(c.args[0].Obj, "tx"); t != nil {
			return c.s.obj(t.Obj)
		}
		return nil
	}
	e.model(bk+"Get", func(c *Call) {
		o := txOf(c)
		if !e.txOpen(c, o) {
			return
		}
		c.engineRead(Ref(o.ID), c.str(1), false,
			func(t *State) { c.ret(t, nilSlice()) },
			func(t *State, content *V) { c.ret(t, t.mkBytes(content, region)) })
	})
	e.model(bk+"Put", func(c *Call) {
		o := txOf(c)
		if !e.txOpen(c, o) {
			return
		}
		if b := c.recvObj(); b != nil {
			e.setting(c.s, c.pos(), option{key: "fillPercent", t: types.Typ[types.Float64], def: boltFill}, func(s *State) *V { return s.objField(Ptr(b.ID), "FillPercent") })
		}
		c.fails("put", func(t *State, err *V) { c.ret(t, err) })
		c.engineWrite(c.s.attr(o.ID, "log").Obj, "put", c.str(1), c.str(2))
		c.ret(c.s, vNil)
	})
	e.model(bk+"Delete", func(c *Call) {
		o := txOf(c)
		if !e.txOpen(c, o) {
			return
		}
		c.fails("delete", func(t *State, err *V) { c.ret(t, err) })
		c.engineWrite(c.s.attr(o.ID, "log").Obj, "del", c.str(1), nil)
		c.ret(c.s, vNil)
	})
	e.model(bk+"Cursor", func(c *Call) {
		if e.compactRead(c) {
			return
		}
		o := c.s.newObj(KCell, named("Cursor"), "engine")
		o.Val = c.s.reify(c.s.sym("cursor", named("Cursor")), named("Cursor"))
		o.Attrs["tx"] = c.s.attr(c.args[0].Obj, "tx")
		c.ret(c.s, Ptr(o.ID))
	})
	move := func(c *Call, lower, prev *V) {
		s := c.s
		id := c.args[0].Obj
		t := s.clone()
		t.note(c.pos(), "the cursor is at the end")
		t.setAttr(id, "cur", vNil)
		c.ret(t, nilSlice(), nilSlice())
		if s.ghostOn("compact") {
			prev = nil // the order of the entries does not matter
		}
		k := engineKey(s, lower, prev, 1)
		s.setAttr(id, "cur", k)
		kv := s.mkBytes(k, region)
		vv := s.newObjAt(s.here()+"v", KArr, types.Typ[types.Byte], region, 0)
		vv.Bytes = true
		vv.Segs = valueOf(k).A
		n := strLen(valueOf(k))
		c.ret(s, kv, SliceV(vv.ID, Int(0), n, n, vFalse))
	}
	cursor := func(f func(c *Call, cur *V)) func(c *Call) {
		return func(c *Call) {
			o := txOf(c)
			if !e.txOpen(c, o) {
				return
			}
			if c.s.ghostOn("snapshot") {
				e.require("C08", "scan:"+e.siteKey(c.s), c.s.attr(o.ID, "late") == nil, "a scan through an open reader reads from a later transaction", c.s, c.pos())
			}
			cur := c.s.attr(c.args[0].Obj, "cur")
			f(c, cur)
		}
	}
	e.model(cu+"Seek", cursor(func(c *Call, cur *V) { move(c, c.str(1), nil) }))
	e.model(cu+"First", cursor(func(c *Call, cur *V) { move(c, nil, nil) }))
	e.model(cu+"Next", cursor(func(c *Call, cur *V) {
		if cur == nil || cur.Op == ONil {
			c.ret(c.s, nilSlice(), nilSlice())
			return
		}
		move(c, nil, cur)
	}))
	e.model(cu+"Delete", cursor(func(c *Call, cur *V) {
		c.fails("delete", func(t *State, err *V) { c.ret(t, err) })
		e.compactDelete(c, cur)
		c.ret(c.s, vNil)
	}))
}

// txOpen reports the use of a transaction that has ended.
func (e *Engine) txOpen(c *Call, o *Obj) bool {
	if o == nil {
		panic("unknown transaction in " + c.name)
	}
	if c.s.isOpen(o.ID) {
		return true
	}
	e.violate("C06", "closedtx:"+e.siteKey(c.s), shortName(c.name)+" on a transaction that has ended", c.s, c.pos())
	e.violate("C01", "closedtx:"+e.siteKey(c.s), shortName(c.name)+" on a transaction that has ended", c.s, c.pos())
	return false
}
