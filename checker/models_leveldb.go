package main

import (
	"go/types"
	"strings"
)

// goleveldb: a Batch given to DB.Write is the unit of atomicity, a Snapshot
// fixes what is read, and there is no isolation between a Get and a Write.
func (e *Engine) leveldbModels() {
	const p = "github.com/syndtr/goleveldb/leveldb"
	const region = "store:leveldb"
	db, ba, sn, tr := "(*"+p+".DB).", "(*"+p+".Batch).", "(*"+p+".Snapshot).", "(*"+p+".Transaction)."
	named := func(n string) types.Type { return e.extType(p, n) }
	notFound := func(s *State) *V {
		g := e.prog.ImportedPackage(p).Var("ErrNotFound")
		return s.obj(s.global(g).Obj).Val
	}

	e.model(p+".OpenFile", func(c *Call) {
		e.pathUsed(c, c.str(0))
		opts := c.args[1]
		field := func(o option, name string, zero *V) {
			o.def = zero
			e.setting(c.s, c.pos(), o, func(s *State) *V {
				if opts.Op != OPtr {
					return zero
				}
				return s.objField(opts, name)
			})
		}
		flag := func(key string) option { return option{key: key, t: types.Typ[types.Bool]} }
		num := func(key string) option { return option{key: key, t: types.Typ[types.Float64], want: fromFloat} }
		field(flag("read_only"), "ReadOnly", vFalse)
		missing := flag("create_if_missing")
		missing.neg = true
		field(missing, "ErrorIfMissing", vFalse)
		field(flag("error_if_exists"), "ErrorIfExist", vFalse)
		field(num("write_buffer_size"), "WriteBuffer", Int(0))
		field(num("block_size"), "BlockSize", Int(0))
		field(num("block_restart_interval"), "BlockRestartInterval", Int(0))
		field(num("lru_cache_capacity"), "BlockCacheCapacity", Int(0))
		bloom := num("bloom_filter_bits_per_key")
		bloom.def = vNil
		e.setting(c.s, c.pos(), bloom, func(s *State) *V {
			if opts.Op != OPtr {
				return vNil
			}
			f := s.objField(opts, "Filter")
			if f != nil && f.Op == OIface && f.A[0].Op == OPtr {
				return s.attr(f.A[0].Obj, "bloom")
			}
			return f
		})
		if opts.Op == OPtr {
			x := c.s.objField(opts, "NoSync")
			e.require("C07", "sync:goleveldb", x == nil || c.s.truth(x) == 0, "the engine is opened with syncing disabled", c.s, c.pos())
		}
		c.fails("open", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		o := s.newRes("db", named("DB"), "engine")
		o.Attrs["path"] = c.str(0)
		o.Attrs["options"] = c.args[1]
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(db+"Close", func(c *Call) {
		if o := c.recvObj(); o != nil {
			c.s.release(o.ID)
		}
		c.fails("close", func(t *State, err *V) { c.ret(t, err) })
		c.ret(c.s, vNil)
	})

	// batches
	logOf := func(s *State, b *V) ObjID {
		if b.Op != OPtr {
			panic("unknown leveldb batch")
		}
		k := "log" + listStr(b.A)
		if r := s.attr(b.Obj, k); r != nil {
			return r.Obj
		}
		l := s.newObjAt("batchlog:"+objNames[b.Obj]+k, KArr, nil, "ghost", 0)
		s.setAttr(b.Obj, k, Ref(l.ID))
		return l.ID
	}
	bt := named("Batch")
	var batches func(s *State, o *Obj, t types.Type, path []*V, depth int)
	batches = func(s *State, o *Obj, t types.Type, path []*V, depth int) {
		if t == bt {
			logOf(s, Ptr(o.ID, path...))
			return
		}
		if st, ok := under(t).(*types.Struct); ok && depth < 3 {
			for i := 0; i < st.NumFields(); i++ {
				batches(s, o, st.Field(i).Type(), append(append([]*V(nil), path...), Fld(i)), depth+1)
			}
		}
	}
	e.onAlloc = func(s *State, o *Obj, t types.Type) { batches(s, o, t, nil, 0) }
	e.model(ba+"Put", func(c *Call) {
		c.engineWrite(logOf(c.s, c.args[0]), "put", c.str(1), c.str(2))
		c.ret(c.s)
	})
	e.model(ba+"Delete", func(c *Call) {
		c.engineWrite(logOf(c.s, c.args[0]), "del", c.str(1), nil)
		c.ret(c.s)
	})
	e.model(ba+"Reset", func(c *Call) {
		c.s.mut(logOf(c.s, c.args[0])).Segs = nil
		if b := c.args[0]; b.Op == OPtr && c.s.attr(b.Obj, "spent") != nil {
			c.s.setAttr(b.Obj, "spent", nil)
		}
		c.ret(c.s)
	})
	e.model(ba+"Len", func(c *Call) { c.ret(c.s, c.s.obj(logOf(c.s, c.args[0])).Len()) })
	e.model(ba+"Dump", func(c *Call) {
		x := App("batchdump", Ref(logOf(c.s, c.args[0])), App("list", c.s.obj(logOf(c.s, c.args[0])).Segs...))
		c.ret(c.s, c.s.mkBytes(bytesOf(x), "fresh"))
	})
	e.model(ba+"Load", func(c *Call) {
		x := c.str(1)
		c.fails("load", func(t *State, err *V) { c.ret(t, err) })
		if len(x.A) == 1 && x.A[0].S == "op" && x.A[0].A[1].Op == OApp && x.A[0].A[1].S == "batchdump" {
			c.s.mut(logOf(c.s, c.args[0])).Segs = x.A[0].A[1].A[1].A
			c.ret(c.s, vNil)
			return
		}
		c.s.mut(logOf(c.s, c.args[0])).Segs = []*V{Seg("lazy", App("len", x), x, Int(0))}
		c.ret(c.s, vNil)
	})
	e.model(ba+"Replay", func(c *Call) {
		s := c.s
		c.fails("replay", func(t *State, err *V) { c.ret(t, err) })
		src := s.obj(logOf(s, c.args[0])).Segs
		to := c.args[1]
		if to.Op == OIface && strings.HasSuffix(typeKey(to.T), "leveldb.Batch") {
			o := s.mut(logOf(s, to.A[0]))
			o.Segs = append(append([]*V(nil), o.Segs...), src...)
			o.norm()
			c.ret(s, vNil)
			return
		}
		e.unknown[c.name+" to another type"] = true
		c.ret(s, vNil)
	})

	sync := func(c *Call, wo *V) bool {
		s := c.s
		if wo.Op != OPtr {
			return false
		}
		x := s.objField(wo, "Sync")
		return x != nil && s.truth(x) == 1
	}
	write := func(c *Call, log ObjID, wo *V) {
		s := c.s
		if e.compactBlocked(c) {
			return
		}
		backend := "goleveldb"
		if s.ghostOn("batch") || s.ghost["config"] != nil {
			e.require("C07", "sync:"+backend, sync(c, wo), "the batch is written without asking the engine to sync it", s, c.pos())
		}
		c.fails("write", func(t *State, err *V) { c.ret(t, err) })
		e.isolated(c, 0)
		l := s.newObjAt(s.here()+"written", KArr, nil, "ghost", 0)
		l.Segs = s.obj(log).Segs
		s.committed(l.ID)
		c.ret(s, vNil)
	}
	e.model(db+"Write", func(c *Call) { write(c, logOf(c.s, c.args[1]), c.args[2]) })
	single := func(kind string) func(c *Call) {
		return func(c *Call) {
			l := c.s.newObjAt(c.s.here()+"single", KArr, nil, "ghost", 0)
			var v *V
			wo := c.args[len(c.args)-1]
			if kind == "put" {
				v = c.str(2)
			}
			c.engineWrite(l.ID, kind, c.str(1), v)
			write(c, l.ID, wo)
		}
	}
	e.model(db+"Put", single("put"))
	e.model(db+"Delete", single("del"))

	// reads
	get := func(src func(c *Call) (*V, bool)) func(c *Call) {
		return func(c *Call) {
			s := c.s
			v, live := src(c)
			if v == nil {
				return
			}
			c.fails("get", func(t *State, err *V) { c.ret(t, nilSlice(), err) })
			if strings.HasSuffix(c.name, "Has") {
				c.engineRead(v, c.str(1), live, func(t *State) { c.ret(t, vFalse, vNil) }, func(t *State, k *V) { c.ret(t, vTrue, vNil) })
				return
			}
			_ = s
			c.engineRead(v, c.str(1), live,
				func(t *State) { c.ret(t, nilSlice(), notFound(t)) },
				func(t *State, content *V) { c.ret(t, t.mkBytes(content, "fresh"), vNil) })
		}
	}
	live := func(c *Call) (*V, bool) { return Tuple(c.s.heldLocks()...), true }
	snap := func(c *Call) (*V, bool) {
		o := c.recvObj()
		if !e.useRes(c, o.ID) {
			return nil, false
		}
		return Ref(o.ID), false
	}
	e.model(db+"Get "+db+"Has", get(live))
	e.model(sn+"Get "+sn+"Has "+tr+"Get "+tr+"Has", get(snap))
	e.model(db+"GetSnapshot", func(c *Call) {
		c.fails("snapshot", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		o := s.newRes("snap", named("Snapshot"), "engine")
		o.Attrs["xlocks"] = Tuple(s.heldLocks()...)
		if s.ghostOn("snapshot") {
			o.Attrs["late"] = vTrue
		}
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(sn+"Release", func(c *Call) { c.s.release(c.recvObj().ID); c.ret(c.s) })

	// iterators
	ifc := e.extType(p+"/iterator", "Iterator")
	newIter := func(c *Call) {
		s := c.s
		var src ObjID
		if o := c.recvObj(); o != nil && o.Attrs["res"] != nil && o.Attrs["res"].S != "db" {
			if !e.useRes(c, o.ID) {
				return
			}
			src = o.ID
		}
		e.snapshotRead(c, src, "scan")
		if e.compactRead(c) {
			return
		}
		o := e.newCursor(c, s, "iter", ifc, Ref(src), region)
		if r := c.args[1]; r.Op == OPtr {
			lo, hi := s.objField(r, "Start"), s.objField(r, "Limit")
			lc, hc := s.rw(s.content(lo)), s.rw(s.content(hi))
			o.Attrs["lo"] = lc
			if s.nilness(hi) != 1 {
				o.Attrs["hi"] = hc
				o.Attrs["hinil"] = isNilTermS(hi)
			}
			if len(hc.A) == 1 && hc.A[0].S == "op" && hc.A[0].A[1] == App("prefixend", lc) {
				// from util.BytesPrefix
				o.Attrs["prefix"] = lc
				delete(o.Attrs, "hi")
				delete(o.Attrs, "hinil")
			}
		}
		c.ret(s, Iface(ifc, Ptr(o.ID)))
	}
	e.model(sn+"NewIterator "+db+"NewIterator "+tr+"NewIterator", newIter)
	e.model(p+"/util.BytesPrefix", func(c *Call) {
		s := c.s
		pc := c.str(0)
		rt := elemType(c.resType(0))
		o := s.newObj(KCell, rt, "fresh")
		o.Val = zero(rt)
		x := App("prefixend", pc)
		lim := s.memOf(bytesOf(x), "fresh", "lim")
		lim = SliceV(lim.Obj, Int(0), lim.A[1], lim.A[1], App("isnil", x))
		s.setFieldOf(o, "Start", c.args[0])
		s.setFieldOf(o, "Limit", lim)
		c.ret(s, Ptr(o.ID))
	})
	it := "(" + p + "/iterator.CommonIterator)."
	is := "(" + p + "/iterator.IteratorSeeker)."
	ii := "(" + p + "/iterator.Iterator)."
	rel := "(" + p + "/util.Releaser)."
	step := func(lower func(c *Call) *V, rewind bool) func(c *Call) {
		return func(c *Call) {
			s := c.s
			id := c.args[0].Obj
			if !s.isOpen(id) {
				s.setAttr(id, "cur", vNil)
				c.ret(s, vFalse)
				return
			}
			cur := s.attr(id, "cur")
			if rewind {
				cur = nil
			} else if cur == nil || cur.Op == ONil {
				if s.attr(id, "moved") != nil {
					c.ret(s, vFalse)
					return
				}
				cur = nil
			}
			s.setAttr(id, "moved", vTrue)
			var lo *V
			if lower != nil {
				lo = lower(c)
			}
			if s.attr(id, "ierr") == nil {
				t := s.clone()
				err := mkErr(t, "iterator")
				t.note(c.pos(), "the iterator fails")
				t.failed("scan", err)
				t.setAttr(id, "ierr", err)
				t.setAttr(id, "cur", vNil)
				c.ret(t, vFalse)
			}
			e.cursorMove(c, s, id, lo, cur, func(t *State) { c.ret(t, vFalse) }, func(t *State, k *V) { c.ret(t, vTrue) })
		}
	}
	e.model(is+"First", step(nil, true))
	e.model(is+"Seek", step(func(c *Call) *V { return c.str(1) }, true))
	e.model(is+"Next", step(nil, false))
	e.model(is+"Last "+is+"Prev", func(c *Call) {
		// moving backwards: some entry within the bounds
		step(nil, true)(c)
	})
	e.model(ii+"Key", func(c *Call) {
		cur := c.s.attr(c.args[0].Obj, "cur")
		if cur == nil || cur.Op == ONil {
			c.ret(c.s, nilSlice())
			return
		}
		c.ret(c.s, c.s.memOf(cur, region, "k"))
	})
	e.model(ii+"Value", func(c *Call) {
		cur := c.s.attr(c.args[0].Obj, "cur")
		if cur == nil || cur.Op == ONil {
			c.ret(c.s, nilSlice())
			return
		}
		c.ret(c.s, c.s.memOf(valueOf(cur), region, "v"))
	})
	e.model(it+"Valid "+is+"Valid "+ii+"Valid", func(c *Call) {
		cur := c.s.attr(c.args[0].Obj, "cur")
		c.ret(c.s, Bool(cur != nil && cur.Op != ONil))
	})
	e.model(it+"Error "+ii+"Error", func(c *Call) {
		err := c.s.attr(c.args[0].Obj, "ierr")
		if err == nil {
			err = vNil
		}
		c.ret(c.s, err)
	})
	e.model(rel+"Release "+it+"Release "+ii+"Release", func(c *Call) {
		c.s.setAttr(c.args[0].Obj, "cur", vNil)
		c.s.release(c.args[0].Obj)
		c.ret(c.s)
	})

	// transactions
	e.model(db+"OpenTransaction", func(c *Call) {
		if e.compactBlocked(c) {
			return
		}
		c.fails("transaction", func(t *State, err *V) { c.ret(t, vNil, err) })
		s := c.s
		o := s.newRes("tx", named("Transaction"), "engine")
		l := s.newObjAt(s.here()+"log", KArr, nil, "ghost", 0)
		o.Attrs["log"] = Ref(l.ID)
		delete(s.ghost, "readin")
		c.ret(s, Ptr(o.ID), vNil)
	})
	e.model(tr+"Write", func(c *Call) {
		o := c.recvObj()
		if !e.txOpen(c, o) {
			return
		}
		c.fails("write", func(t *State, err *V) { c.ret(t, err) })
		s := c.s
		if s.ghostOn("compact") {
			b := c.args[1]
			if b.Op == OPtr {
				e.require("C21", "fresh:goleveldb", s.attr(b.Obj, "spent") == nil, "the batch still holds the deletions of an earlier transaction: the entries may have changed since", s, c.pos())
				s.setAttr(b.Obj, "spent", vTrue)
			}
			c.ret(s, vNil)
			return
		}
		l := s.mut(s.attr(o.ID, "log").Obj)
		l.Segs = append(append([]*V(nil), l.Segs...), s.obj(logOf(s, c.args[1])).Segs...)
		l.norm()
		c.ret(s, vNil)
	})
	txw := func(kind string) func(c *Call) {
		return func(c *Call) {
			o := c.recvObj()
			if !e.txOpen(c, o) {
				return
			}
			c.fails("write", func(t *State, err *V) { c.ret(t, err) })
			var v *V
			if kind == "put" {
				v = c.str(2)
			}
			c.engineWrite(c.s.attr(o.ID, "log").Obj, kind, c.str(1), v)
			c.ret(c.s, vNil)
		}
	}
	e.model(tr+"Put", txw("put"))
	e.model(tr+"Delete", txw("del"))
	e.model(tr+"Commit", func(c *Call) {
		o := c.recvObj()
		if !e.txOpen(c, o) {
			return
		}
		// a transaction that failed to commit stays open
		c.fails("commit", func(t *State, err *V) { c.ret(t, err) })
		s := c.s
		e.isolated(c, o.ID)
		log := s.attr(o.ID, "log").Obj
		s.release(o.ID)
		s.committed(log)
		c.ret(s, vNil)
	})
	e.model(tr+"Discard", func(c *Call) { c.s.release(c.recvObj().ID); c.ret(c.s) })
	e.model(db+"CompactRange", func(c *Call) {
		c.fails("compact", func(t *State, err *V) { c.ret(t, err) })
		c.ret(c.s, vNil)
	})
	e.model(p+"/filter.NewBloomFilter", func(c *Call) {
		o := c.s.newObj(KCell, types.Typ[types.Int], "fresh")
		o.Attrs["bloom"] = c.args[0]
		o.Val = c.args[0]
		c.ret(c.s, Iface(c.resType(0), Ptr(o.ID)))
	})
}
