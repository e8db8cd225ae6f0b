package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The store as an index sees it, through the interfaces of package store: it
// may refuse every handle, fail every scan and every batch, and a scan yields
// any number of entries, each within the scan's bounds and either a key an
// index write can have produced or a key too short to be one.

const storePkg = modPath + "/store"

// A handle behind an interface of package store.
func (c *Call) storeHandle(kind, iface string, parent ObjID) *V {
	s := c.s
	o := s.newRes(kind, nil, "store")
	if parent != 0 {
		o.Attrs["parent"] = Ref(parent)
	}
	if kind == "kvbatch" {
		id := o.ID
		l := s.newLog()
		s.setAttr(id, "log", Ref(l.ID))
		o = s.obj(id)
	}
	return Iface(c.e.extType(storePkg, iface), Ref(o.ID))
}

func (e *Engine) indexModels() {
	// the store
	e.model("client.kvstore", func(c *Call) {
		o := c.s.newObj(KCell, nil, "store")
		o.Attrs["res"] = Float("kvstore")
		o.Attrs["pinned"] = vTrue
		c.ret(c.s, Iface(c.resType(0), Ref(o.ID)))
	})
	h := func(names string, f func(c *Call, id ObjID)) {
		for _, n := range strings.Fields(names) {
			e.models["handle:"+n] = func(c *Call) bool {
				f(c, c.args[0].Obj)
				return true
			}
		}
	}
	h("kvstore.Writer", func(c *Call, id ObjID) {
		c.fails("writer", func(t *State, err *V) { c.ret(t, vNil, err) })
		c.ret(c.s, c.storeHandle("kvwriter", "KVWriter", id), vNil)
	})
	h("kvstore.Reader", func(c *Call, id ObjID) {
		c.fails("reader", func(t *State, err *V) { c.ret(t, vNil, err) })
		c.ret(c.s, c.storeHandle("kvreader", "KVReader", id), vNil)
	})
	h("kvstore.Close", func(c *Call, id ObjID) { c.ret(c.s, vNil) })

	// writing
	h("kvwriter.NewBatch", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.ret(c.s, c.storeHandle("kvbatch", "KVBatch", id))
	})
	h("kvwriter.NewBatchEx", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.fails("batch", func(t *State, err *V) { c.ret(t, nilSlice(), vNil, err) })
		s := c.s
		n := App("f:TotalBytes", c.args[1])
		if v := s.fieldOf(c.args[1], c.types[1], "TotalBytes"); v != nil {
			n = v
		}
		b := s.mkBytes(StrV([]*V{Seg("zero", n)}), "fresh")
		c.ret(s, b, c.storeHandle("kvbatch", "KVBatch", id), vNil)
	})
	logOf := func(s *State, id ObjID) ObjID { return s.attr(id, "log").Obj }
	h("kvbatch.Set", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		s := c.s
		k := c.str(1)
		e.indexKey(c, k)
		s.logTo(logOf(s, id), Tuple(Float("put"), k))
		c.ret(s)
	})
	h("kvbatch.Delete kvbatch.Merge", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.s.logTo(logOf(c.s, id), Tuple(Float("other"), c.str(1)))
		c.ret(c.s)
	})
	h("kvbatch.Reset", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.s.mut(logOf(c.s, id)).Segs = nil
		c.ret(c.s)
	})
	h("kvwriter.ExecuteBatch", func(c *Call, id ObjID) {
		s := c.s
		if !e.usable(c, id) {
			return
		}
		b := c.args[1]
		if b.Op != OIface || b.A[0].Op != ORef || !e.usableH(c, b.A[0].Obj) {
			if b.Op == OIface && b.A[0].Op == ORef {
				return
			}
			c.fails("execute", func(t *State, err *V) { c.ret(t, err) })
			return
		}
		c.fails("execute", func(t *State, err *V) { c.ret(t, err) })
		l := logOf(s, b.A[0].Obj)
		e.require("C01", "once:"+e.siteKey(s), s.ghost["executed"] != Ref(l), "a batch is executed twice", s, c.pos())
		s.ghost["executed"] = Ref(l)
		c.ret(s, vNil)
	})

	// reading
	h("kvreader.PrefixIterator", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		e.openScan(c, id, c.str(1), nil)
	})
	h("kvreader.RangeIterator", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		e.openScan(c, id, c.str(1), c.str(2))
	})
	h("kvreader.Get", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.fails("get", func(t *State, err *V) { c.ret(t, nilSlice(), err) })
		s := c.s
		x := s.sym("stored", byteSliceT)
		symOf(x).region = "fresh"
		c.ret(s, s.reify(x, byteSliceT), vNil)
	})

	// iterators
	at := func(names string, f func(c *Call, s *State, id ObjID, valid bool)) {
		h(names, func(c *Call, id ObjID) {
			if !e.usable(c, id) {
				return
			}
			e.settle(c, id, func(s *State, valid bool) { f(c, s, id, valid) })
		})
	}
	at("kviter.Current", func(c *Call, s *State, id ObjID, valid bool) {
		if !valid {
			c.ret(s, nilSlice(), nilSlice(), vFalse)
			return
		}
		c.ret(s, s.attr(id, "key"), nilSlice(), vTrue)
	})
	at("kviter.Valid", func(c *Call, s *State, id ObjID, valid bool) { c.ret(s, Bool(valid)) })
	at("kviter.Key", func(c *Call, s *State, id ObjID, valid bool) {
		if !valid {
			c.ret(s, nilSlice())
			return
		}
		c.ret(s, s.attr(id, "key"))
	})
	at("kviter.Value", func(c *Call, s *State, id ObjID, valid bool) { c.ret(s, nilSlice()) })
	h("kviter.Next", func(c *Call, id ObjID) {
		s := c.s
		if !e.usable(c, id) {
			return
		}
		if s.attrStr(id, "pos") == "at" {
			e.leaveEntry(c, id)
			s.setAttr(id, "pos", nil)
		} else if s.attrStr(id, "pos") == "" {
			// stepping without looking passes over an entry, if there is one
			e.settle(c, id, func(t *State, valid bool) {
				if valid {
					e.require("C23", "skip:"+e.siteKey(t), false, "an entry of the scan is passed over without being looked at", t, c.pos())
				}
				c.ret(t)
			})
			return
		}
		c.ret(s)
	})
	h("kviter.Seek", func(c *Call, id ObjID) {
		if !e.usable(c, id) {
			return
		}
		c.s.setAttr(id, "pos", nil)
		e.invalidate(c.s, id)
		c.s.ghost["moved"] = vTrue
		c.ret(c.s)
	})
	h("kviter.Close", func(c *Call, id ObjID) {
		s := c.s
		if !s.isOpen(id) {
			c.ret(s, vNil)
			return
		}
		if p := s.attr(id, "parent"); p != nil {
			e.require("C01", "order:"+e.siteKey(s), s.isOpen(p.Obj), "an iterator is closed after the reader it belongs to", s, c.pos())
		}
		if s.attrStr(id, "pos") == "at" {
			e.invalidate(s, id)
		}
		if s.attrStr(id, "pos") != "end" {
			s.ghost["early"] = Float(e.siteKey(s))
		}
		s.release(id)
		if s.attr(id, "failed") != nil {
			x := mkErr(s, "scan")
			c.ret(s, x)
			return
		}
		c.ret(s, vNil)
	})
	h("kvreader.Close kvwriter.Close kvbatch.Close", func(c *Call, id ObjID) {
		s := c.s
		if s.isOpen(id) {
			if s.attrStr(id, "res") == "kvreader" {
				for _, o := range s.openRes("kviter") {
					if p := o.Attrs["parent"]; p != nil && p.Obj == id {
						e.require("C01", "order:"+e.siteKey(s), false, "a reader is closed before the iterator obtained from it", s, c.pos())
						s.release(o.ID)
					}
				}
			}
			s.release(id)
		}
		t := s.clone()
		c.ret(t, mkErr(t, "close"))
		c.ret(s, vNil)
	})

	// time
	e.model("(time.Time).UnixNano", func(c *Call) { c.ret(c.s, App("unixnano", c.s.rw(c.args[0]))) })
	e.model("time.Unix", func(c *Call) { c.ret(c.s, App("unix", c.s.rw(c.args[0]), c.s.rw(c.args[1]))) })
	for _, n := range strings.Fields("(time.Time).Before (time.Time).After (time.Time).Equal (time.Time).IsZero (time.Time).Unix (time.Time).UTC (time.Time).Add (time.Time).Sub") {
		n := n
		e.model(n, func(c *Call) { c.pure(n) })
	}

	// clients
	e.model("client.index_", func(c *Call) {
		s := c.s
		s.ghost["index"] = Float(mustStr(c.args[0]))
		s.ghost["prefix"] = c.str(1)
		s.ghost["level"] = c.s.rw(c.args[2])
		s.ghostList("scanned")
		s.ghostList("found")
		c.ret(s)
	})
	e.model("client.level", func(c *Call) {
		s := c.s
		x := s.sym("client:level", types.Typ[types.Int])
		s.assume(GE(x), true)
		s.assume(GE(AddN(MulN(x, -1), 30)), true)
		c.ret(s, x)
	})
	opaque := func(c *Call) {
		s := c.s
		n, _ := strConst(c.args[0])
		x := s.sym("client:"+n, c.resType(0))
		symOf(x).region = "client:" + n
		if _, ok := under(c.resType(0)).(*types.Slice); ok {
			s.assume(App("isnil", x), false)
		}
		if isPtrLike(c.resType(0)) {
			symOf(x).nonnil = true
		}
		c.ret(s, s.reify(x, c.resType(0)))
	}
	for _, n := range strings.Fields("float when cell cells geo") {
		e.model("client."+n, opaque)
	}
	e.model("client.inputs", func(c *Call) { c.s.ghost["inputs"] = vTrue; c.ret(c.s) })
	e.model("client.summarise", func(c *Call) { c.s.ghost["summarise"] = vTrue; c.ret(c.s) })
	e.model("client.asked", func(c *Call) {
		c.s.ghost["asked"] = c.s.rw(c.args[0])
		c.ret(c.s)
	})
	e.model("client.askedList", func(c *Call) {
		s := c.s
		s.ghost["askedlist"] = Tuple(s.items(c.args[0])...)
		c.ret(s)
	})
	e.model("client.askedArea", func(c *Call) {
		var as []*V
		for _, a := range c.args[1:] {
			as = append(as, c.s.rw(a))
		}
		c.s.ghost["area"] = Tuple(append([]*V{Float(mustStr(c.args[0]))}, as...)...)
		c.ret(c.s)
	})
	e.model("client.window", func(c *Call) {
		c.s.ghost["window"] = Tuple(c.s.rw(c.args[0]), c.s.rw(c.args[1]))
		c.ret(c.s)
	})
	e.model("client.writes client.writesAt", func(c *Call) {
		s := c.s
		var t *V = vNil
		if len(c.args) > 1 {
			t = s.rw(c.args[1])
		}
		s.ghost["id"] = c.str(0)
		s.ghost["time"] = t
		c.ret(s)
	})
	e.model("client.pointAt", func(c *Call) {
		c.s.ghost["point"] = App("leaf", App("pt", angle(c.s.rw(c.args[0])), angle(c.s.rw(c.args[1]))))
		c.ret(c.s)
	})
	e.model("client.endWrite", func(c *Call) { e.endWrite(c) })
	e.model("client.endKey", func(c *Call) { e.endKey(c) })
	e.model("client.endQuery", func(c *Call) { e.endQuery(c) })
	e.model("client.refused", func(c *Call) {
		e.require(mustStr(c.args[0]), mustStr(c.args[1])+":"+c.s.ghostStr("index"), c.s.nilness(c.args[2]) == 0, mustStr(c.args[3]), c.s, c.pos())
		c.ret(c.s)
	})
	prev := e.onStore
	e.onStore = func(s *State, o *Obj, p *V) {
		if prev != nil {
			prev(s, o, p)
		}
		e.inputWrite(s, o)
	}
	old := e.summary
	e.summary = func(c *Call, fn *ssa.Function) bool {
		if old != nil && old(c, fn) {
			return true
		}
		return e.coverSummary(c, fn)
	}
}

// inputWrite: the memory of the caller is not written.
func (e *Engine) inputWrite(s *State, o *Obj) {
	if !s.ghostOn("inputs") || s.repoFrame() == nil {
		return
	}
	bad := strings.HasPrefix(o.Region, "client:")
	if bad && s.ghostOn("dest") && strings.HasPrefix(o.Region, "client:dest") {
		bad = false
	}
	prop := "C29"
	if s.ghostStr("panics") == "C35" {
		prop = "C35"
	}
	e.require(prop, "write:"+e.siteKey(s), !bad, "memory that belongs to the caller ("+strings.TrimPrefix(o.Region, "client:")+") is written", s, e.pos(s))
}

// usable: the receiver of a call is a handle that has not been released.
func (e *Engine) usable(c *Call, id ObjID) bool { return e.usableH(c, id) }

func (e *Engine) usableH(c *Call, id ObjID) bool {
	s := c.s
	kind := s.attrStr(id, "res")
	ok := s.isOpen(id)
	if ok && kind == "kviter" {
		if p := s.attr(id, "parent"); p != nil && !s.isOpen(p.Obj) {
			ok = false
		}
	}
	e.require("C01", "use:"+kind+":"+e.siteKey(s), ok, "a "+kindName(kind)+" is used after it (or what it came from) was closed", s, c.pos())
	return ok
}

func kindName(k string) string {
	return map[string]string{"kvreader": "reader", "kvwriter": "writer", "kvbatch": "batch", "kviter": "iterator"}[k]
}

// ---- keys ----

// cutKey takes a component off the front of a key.
func (s *State) cutKey(k, front *V) (*V, bool) {
	n := s.rw(strLen(front))
	l, ok := subSegs(s, k.A, Int(0), n)
	if !ok || s.rw(StrV(l)) != s.rw(front) {
		return k, false
	}
	return s.rw(subStr(s, k.A, n, Sub(strLen(k), n))), true
}

// cutWord takes a word off the front of a key.
func (s *State) cutWord(k *V) (w *V, enc string, rest *V, ok bool) {
	if len(k.A) == 0 {
		return nil, "", k, false
	}
	g := k.A[0]
	if g.S == "lit" && len(g.Lit()) >= 8 {
		return nil, "lit", k, false
	}
	if n, isn := isInt(s.rw(g.A[0])); !isn || n != 8 {
		return nil, "", k, false
	}
	switch g.S {
	case "be64", "le64":
		return s.rw(g.A[1]), g.S, StrV(k.A[1:]), true
	}
	return nil, "", k, false
}

// revTime is the reversed form of a time.
func revTime(t *V) *V {
	return AddN(MulN(App("unixnano", t), -1), math.MaxInt64)
}

// indexKey checks the shape of a key an index writes: C22, C24.
func (e *Engine) indexKey(c *Call, k *V) {
	s := c.s
	if s.ghost["prefix"] == nil || s.ghost["id"] == nil {
		return
	}
	cell := e.keyShape(s, k, "write", c.pos())
	if cell == nil {
		return
	}
	kind := s.ghostStr("index")
	if kind == "point" {
		if p := s.ghost["point"]; p != nil {
			e.require("C28", "cell:"+kind, cell == s.rw(p), "a point is not indexed under the leaf cell of its latitude and longitude"+e.dbg("%v", cell), s, c.pos())
		}
		e.require("C24", "leaf:"+kind, s.level(cell) == Int(30), "the cell of a point entry is not a leaf cell", s, c.pos())
		return
	}
	e.require("C24", "level:"+kind, s.eq(s.level(cell), s.ghost["level"]), "an entry is stored under a cell that is not of the index's level"+e.dbg("%v level %v", cell, s.level(cell)), s, c.pos())
	if cv := coverOf(cell); cv != nil {
		e.require("C24", "cover:"+kind, cv.A[0].S == "Covering", "the object is indexed by a cover that does not contain all of it ("+cv.A[0].S+")", s, c.pos())
	}
}

// keyShape checks a written key and returns its cell.
func (e *Engine) keyShape(s *State, k *V, what string, pos token.Pos) *V {
	kind := s.ghostStr("index")
	site := what + ":" + kind
	k = s.rw(k)
	rest, ok := s.cutKey(k, s.ghost["prefix"])
	e.require("C22", "prefix:"+site, ok, "the key does not start with the whole prefix of the index"+e.dbg("%v", k), s, pos)
	if !ok {
		return nil
	}
	cell, enc, rest, ok := s.cutWord(rest)
	e.require("C22", "cell:"+site, ok && enc == "be64", "the prefix is not followed by the cell as eight bytes in big endian order"+e.dbg("%v", k), s, pos)
	if !ok {
		return nil
	}
	if kind == "time" {
		w, enc, r, ok := s.cutWord(rest)
		rest = r
		good := ok && enc == "be64" && (s.ghost["time"] == nil || s.ghost["time"] == vNil || s.eq(w, revTime(s.ghost["time"])))
		e.require("C27", "stored:"+kind, good, "the cell is not followed by the reversed time (the latest first) as eight bytes in big endian order"+e.dbg("%v", k), s, pos)
		if !ok {
			return nil
		}
	}
	if id := s.ghost["id"]; id != nil {
		e.require("C22", "id:"+site, s.rw(rest) == s.rw(id), "what follows in the key is not exactly the ID"+e.dbg("%v", k), s, pos)
	}
	return cell
}

// ---- scans ----

// openScan opens an iterator: from key start (a prefix when stop is nil).
func (e *Engine) openScan(c *Call, reader ObjID, start, stop *V) {
	s := c.s
	kind := s.ghostStr("index")
	prefix := s.ghost["prefix"]
	v := c.storeHandle("kviter", "KVIterator", reader)
	id := v.A[0].Obj
	if prefix != nil {
		start = s.rw(start)
		rest, ok := s.cutKey(start, prefix)
		e.require("C23", "prefix:"+kind, ok, "a scan does not start with the whole prefix of the index", s, c.pos())
		if !ok {
			return
		}
		lo, enc, rest, ok := s.cutWord(rest)
		e.require("C23", "start:"+kind, ok && enc == "be64", "the start of a scan is not the prefix and a cell as eight bytes in big endian order", s, c.pos())
		if !ok {
			return
		}
		var hi, rest2 *V
		if stop != nil {
			stop = s.rw(stop)
			r, ok := s.cutKey(stop, prefix)
			if ok {
				hi, enc, rest2, ok = s.cutWord(r)
			}
			e.require("C23", "stop:"+kind, ok && enc == "be64", "the end of a scan is not the prefix and a cell as eight bytes in big endian order", s, c.pos())
			if !ok {
				return
			}
		}
		var cell *V
		switch kind {
		case "flat":
			cell = lo
			ok = len(rest.A) == 0 && (stop == nil || s.eq(hi, AddN(lo, 1)) && len(rest2.A) == 0)
			e.require("C23", "range:"+kind, ok, "the scan does not cover exactly the keys of the cell"+e.dbg("%v %v", start, stop), s, c.pos())
		case "point":
			var d1, d2 int64
			var c2 *V
			if stop == nil {
				// the entries of one leaf cell
				cell = lo
				ok = s.truth(s.leafTerm(lo)) == 1 && len(rest.A) == 0
			} else {
				cell, d1 = rangeStart(lo)
				c2, d2 = rangeEnd(hi)
				ok = cell != nil && cell == c2 && (d1 == 0 || d1 == -1) && (d2 == 1 || d2 == 2) && len(rest.A) == 0 && len(rest2.A) == 0
			}
			e.require("C23", "range:"+kind, ok, "the scan does not cover exactly the keys of the points in the cell, from its first to its last leaf"+e.dbg("%v %v", start, stop), s, c.pos())
			if cell == nil {
				return
			}
		case "time":
			cell = lo
			if stop != nil {
				t1, e1, r1, ok1 := s.cutWord(rest)
				t2, e2, r2, ok2 := s.cutWord(rest2)
				w := s.ghost["window"]
				okc := s.eq(lo, hi)
				e.require("C23", "range:"+kind, okc, "the scan of a time window covers keys of another cell", s, c.pos())
				okt := ok1 && ok2 && e1 == "be64" && e2 == "be64" && len(r1.A) == 0 && len(r2.A) == 0
				if okt && w != nil {
					okt = s.eq(t1, revTime(w.A[0])) && s.eq(t2, revTime(w.A[1]))
				}
				e.require("C27", "window:"+kind, okt, "the scan does not run from the first to the second end of the time window, both reversed like the stored times"+e.dbg("%v %v", start, stop), s, c.pos())
				if !ok1 || !ok2 {
					return
				}
			} else {
				e.require("C27", "window:"+kind, len(rest.A) == 0 && false, "the scan is not bounded by the two ends of the time window", s, c.pos())
				return
			}
		}
		e.askedCell(c, cell)
		s.setAttr(id, "cell", cell)
		if s.ghost["watchid"] == nil {
			s.logTo(s.ghostList("scanned").ID, Tuple(cell))
		}
	}
	c.ret(s, v)
}

// askedCell: the scanned cell is one the query is about.
func (e *Engine) askedCell(c *Call, cell *V) {
	s := c.s
	kind := s.ghostStr("index")
	if a := s.ghost["asked"]; a != nil {
		e.require("C23", "asked:"+kind, s.eq(cell, a), "the scanned cell is not the requested one", s, c.pos())
	}
	if kind != "point" {
		e.require("C24", "query:"+kind, s.eq(s.level(cell), s.ghost["level"]), "a cell that is not of the index's level is scanned"+e.dbg("%v", cell), s, c.pos())
	}
	if cv := coverOf(cell); cv != nil && s.ghost["area"] != nil {
		e.require("C26", "cover:"+kind, cv.A[0].S == "Covering" || cv.A[0].S == "FastCovering", "the scanned cells are not a cover of the whole area ("+cv.A[0].S+")", s, c.pos())
		e.areaIs(c, cv.A[1], "covered")
	}
}

// areaIs checks that an area is the one the query is about.
func (e *Engine) areaIs(c *Call, x *V, what string) {
	s := c.s
	a := s.ghost["area"]
	if a == nil {
		return
	}
	kind := s.ghostStr("index")
	prop := "C25"
	if kind != "point" {
		prop = "C26"
	}
	x = s.rw(x)
	if what == "covered" {
		for x.Op == OApp && x.S == "bound" {
			x = x.A[0]
		}
	}
	key := "area:" + what + ":" + kind + ":" + a.A[0].S
	msg := "the " + what + " area is not the queried one"
	if x.Op != OApp {
		return
	}
	switch x.S {
	case "cap":
		ok := a.A[0].S == "cap" && x.A[0] == App("pt", angle(a.A[1]), angle(a.A[2]))
		if ok {
			ok = capSize(x.A[1].S, x.A[2], a.A[3]) != 0
		}
		e.require(prop, key, ok, msg+e.dbg("%v", x), s, c.pos())
	case "rect":
		ok := a.A[0].S == "rect" && x == rectOf([]*V{App("pt", angle(a.A[1]), angle(a.A[2])), App("pt", angle(a.A[3]), angle(a.A[4]))})
		e.require(prop, key, ok, msg+e.dbg("%v", x), s, c.pos())
	}
}

// settle decides what is at the iterator's position.
func (e *Engine) settle(c *Call, id ObjID, f func(s *State, valid bool)) {
	s := c.s
	switch s.attrStr(id, "pos") {
	case "at":
		f(s, true)
		return
	case "end":
		f(s, false)
		return
	}
	end := s.clone()
	end.setAttrS(id, "pos", "end")
	end.note(c.pos(), "no more entries")
	f(end, false)

	bad := s.clone()
	bad.setAttrS(id, "pos", "end")
	bad.setAttr(id, "failed", vTrue)
	bad.note(c.pos(), "the scan fails in the store")
	bad.failed("scan", nil)
	f(bad, false)

	prefix, cell := s.ghost["prefix"], s.attr(id, "cell")
	if prefix == nil || cell == nil {
		return
	}
	kind := s.ghostStr("index")
	mem := func(t *State, k *V) {
		o := t.newObj(KArr, types.Typ[types.Byte], "kviter")
		o.Bytes = true
		o.Segs = k.A
		n := strLen(k)
		t.setAttr(id, "key", SliceV(o.ID, Int(0), n, n, vFalse))
		t.setAttrS(id, "pos", "at")
	}
	short := s.clone()
	max := int64(8)
	if kind == "time" {
		max = 16
	}
	short.note(c.pos(), "an entry whose key is too short")
	short.failed("decode", nil)
	var k *V
	if kind == "flat" {
		k = StrV(append(append([]*V(nil), prefix.A...), Seg("be64", Int(8), cell)))
	} else {
		x := short.sym("shortkey", nil)
		short.assume(GE(AddN(MulN(App("len", x), -1), max)), true)
		k = StrV(append(append([]*V(nil), prefix.A...), Seg("op", App("len", x), x, Int(0))))
	}
	mem(short, k)
	short.setAttr(id, "eid", nil)
	f(short, true)

	if s.setOfIDs() && s.ghost["watch"] == nil {
		w := s.clone()
		w.note(c.pos(), "an entry whose ID is not in the other cells")
		e.indexEntry(w, id, mem, true)
		f(w, true)
	}
	s.note(c.pos(), "an entry")
	e.indexEntry(s, id, mem, false)
	f(s, true)
}

// setOfIDs: the same ID may be found several times.
func (s *State) setOfIDs() bool {
	return s.ghost["askedlist"] != nil || s.ghost["area"] != nil && s.ghostStr("index") != "point"
}

// indexEntry makes the entry at the iterator's position.
func (e *Engine) indexEntry(s *State, id ObjID, mem func(t *State, k *V), watched bool) {
	prefix, cell, kind := s.ghost["prefix"], s.attr(id, "cell"), s.ghostStr("index")
	segs := append([]*V(nil), prefix.A...)
	ec := cell
	if kind == "point" {
		ec = s.sym("entrycell", nil)
	}
	segs = append(segs, Seg("be64", Int(8), ec))
	if kind == "time" {
		segs = append(segs, Seg("be64", Int(8), s.sym("entrytime", nil)))
	}
	var x *V
	if watched {
		x = s.watchSym("watchedid", nil)
		s.ghost["watchid"] = x
		// only the watched ID matters from here
		s.mut(s.ghostList("found").ID).Segs = nil
		s.mut(s.ghostList("scanned").ID).Segs = nil
	} else {
		x = s.sym("entryid", nil)
	}
	symOf(x).region = "kviter"
	s.assume(GE(AddN(App("len", x), -1)), true)
	idv := bytesOf(x)
	mem(s, StrV(append(segs, idv.A...)))
	s.setAttr(id, "eid", idv)
	s.setAttr(id, "ecell", ec)
}

// invalidate: the memory of the current key is reused by the iterator.
func (e *Engine) invalidate(s *State, id ObjID) {
	if k := s.attr(id, "key"); k != nil && k.Op == OSlice && s.heap[k.Obj] != nil {
		o := s.mut(k.Obj)
		o.Segs = []*V{Seg("op", o.Len(), s.sym("moved", nil), Int(0))}
		o.Attrs["dirty"] = vTrue
	}
	s.setAttr(id, "key", nil)
	s.setAttr(id, "eid", nil)
	s.setAttr(id, "ecell", nil)
}

// leaveEntry: the iterator moves on; the entry must have been dealt with.
func (e *Engine) leaveEntry(c *Call, id ObjID) {
	s := c.s
	eid, cell := s.attr(id, "eid"), s.attr(id, "ecell")
	e.invalidate(s, id)
	if eid == nil {
		return
	}
	kind := s.ghostStr("index")
	held := s.holdsID(eid)
	a := s.ghost["area"]
	if a == nil || kind != "point" {
		e.require("C26", "kept:"+kind, held, "the ID of a scanned entry is dropped", s, c.pos())
		if w := s.ghost["watchid"]; w != nil && eid == bytesOf(w) {
			s.ghost["watchfound"] = vTrue
		}
		s.foundID(eid)
		return
	}
	in := 0
	pt := App("center", cell)
	for f, b := range s.facts {
		if f.Op == OApp && f.S == "inside" && f.A[1] == pt {
			if b {
				in = 1
			} else {
				in = -1
			}
			e.areaIs(c, f.A[0], "tested")
		}
	}
	switch {
	case in == 1:
		e.require("C25", "kept:"+a.A[0].S, held, "an entry inside the queried area is dropped", s, c.pos())
		s.foundID(eid)
	case in == -1:
		e.require("C25", "outside:"+a.A[0].S, !held, "an entry outside the queried area is returned", s, c.pos())
	case held:
		e.require("C25", "tested:"+a.A[0].S, false, "an entry is returned without its decoded position being tested against the queried area", s, c.pos())
	default:
		e.require("C25", "kept:"+a.A[0].S, false, "an entry is dropped although its decoded position was not tested to be outside the queried area", s, c.pos())
	}
}

func (s *State) foundID(eid *V) {
	if s.ghost["watchid"] == nil {
		s.logTo(s.ghostList("found").ID, Tuple(eid))
	}
}

// holdsID: some list or map of the operation holds the ID.
func (s *State) holdsID(id *V) bool {
	var has func(v *V) bool
	has = func(v *V) bool {
		if v == nil {
			return false
		}
		switch v.Op {
		case OSlice:
			if v.Obj != 0 && s.heap[v.Obj] != nil && s.heap[v.Obj].Bytes {
				return s.rw(s.content(v)) == s.rw(id)
			}
			return false
		case OStr:
			return s.rw(v) == s.rw(id)
		}
		for _, a := range v.A {
			if has(a) {
				return true
			}
		}
		return false
	}
	for _, o := range s.heap {
		if o.Region == "ghost" || o.Bytes || o.Kind != KArr && o.Kind != KMap {
			continue
		}
		for _, g := range o.Segs {
			if (g.S == "el" || g.S == "star") && has(g) {
				return true
			}
		}
	}
	return false
}

// ---- ends of operations ----

func (e *Engine) endOp(s *State, err *V, pos token.Pos) {
	kind := s.ghostStr("index")
	open := s.openRes("kvreader", "kvwriter", "kvbatch", "kviter")
	what := ""
	if len(open) > 0 {
		what = open[0].Attrs["res"].S
	}
	e.require("C01", "released:"+kind, len(open) == 0, "the operation returns without releasing the "+kindName(what)+" it obtained", s, pos)
	if s.ghostOn("fail") {
		e.require("C02", "reported:"+kind, s.nilness(err) == 0, "the operation reports success although something failed: "+s.ghostStr("fail"), s, pos)
	}
}

// endWrite ends an index write.
func (e *Engine) endWrite(c *Call) {
	pos := c.pos()
	kind := c.s.ghostStr("index")
	c.s.forkNil(c.args[0], func(s *State, isnil bool) {
		e.endOp(s, c.args[0], pos)
		if isnil && !s.ghostOn("fail") {
			x := s.ghost["executed"]
			var segs []*V
			if x != nil {
				segs = s.obj(x.Obj).Segs
			}
			e.require("C02", "executed:"+kind, x != nil, "the index write reports success but executed no batch", s, pos)
			n := s.rw(segsLen(segs))
			e.require("C30", "stored:"+kind, x == nil || s.proveGE(AddN(n, -1)), "an index write reports success although it stored nothing", s, pos)
			if id := s.ghost["id"]; id != nil {
				e.require("C30", "id:"+kind, s.proveGE(AddN(strLen(id), -1)), "an entry with an empty ID is stored", s, pos)
			}
			if kind == "point" {
				e.require("C24", "all:"+kind, s.eq(n, Int(1)), "a point is not stored as one entry", s, pos)
			} else if cv := s.writtenCover(segs); cv != nil {
				e.require("C24", "all:"+kind, s.eq(n, App("len", cv)), "not every cell of the object's cover gets an entry"+e.dbg("%v", segs), s, pos)
			}
		}
		c.ret(s)
	})
}

// writtenCover is the cover the written entries are of.
func (s *State) writtenCover(segs []*V) *V {
	var cv *V
	for _, g := range segs {
		walk(g, func(x *V) {
			if y := coverOf(x); y != nil {
				cv = y
			}
		})
	}
	return cv
}

// endKey checks a key handed to the caller: (key, id, err).
func (e *Engine) endKey(c *Call) {
	s := c.s
	k, id, err := c.args[0], c.args[1], c.args[2]
	pos := c.pos()
	s.forkNil(err, func(s *State, isnil bool) {
		if isnil {
			cell := e.keyShape(s, s.content(k), "key", pos)
			if p := s.ghost["point"]; cell != nil && p != nil {
				e.require("C28", "key:point", cell == s.rw(p), "the key of a point is not that of the leaf cell of its latitude and longitude"+e.dbg("%v", cell), s, pos)
			}
			e.require("C03", "key:point", s.private(k), "the returned key shares memory with the ID or the index", s, pos)
			_ = id
		}
		c.ret(s)
	})
}

// endQuery ends a query: (ids, err).
func (e *Engine) endQuery(c *Call) {
	pos := c.pos()
	kind := c.s.ghostStr("index")
	ids, err := c.args[0], c.args[1]
	c.s.forkNil(err, func(s *State, isnil bool) {
		e.endOp(s, err, pos)
		if isnil && !s.ghostOn("fail") {
			e.queryResult(s, kind, ids, pos)
		}
		if !s.ghostOn("fail") && s.ghost["area"] != nil && kind != "point" {
			e.require("C24", "refused:"+kind, isnil, "an area query is refused although nothing failed: it asks for cells that are not of the index's level", s, pos)
		}
		if a := s.ghost["asked"]; a != nil && !s.ghostOn("fail") && (kind == "point" || s.eq(s.level(s.rw(a)), s.ghost["level"])) {
			e.require("C23", "refused:"+kind, isnil, "the query for a cell of the index is refused although nothing failed", s, pos)
		}
		c.ret(s)
	})
}

func (e *Engine) queryResult(s *State, kind string, ids *V, pos token.Pos) {
	if x := s.ghost["early"]; x != nil {
		e.require("C23", "exhausted:"+kind, false, "a scan is given up before its last entry, without an error", s, pos)
	} else {
		e.checked("C23", "exhausted:"+kind)
	}
	segs := s.items(ids)
	// every ID is private memory with the content of an entry's ID
	var all []*V
	for _, g := range segs {
		if g.S == "el" || g.S == "star" {
			all = append(all, g.A[1:]...)
			continue
		}
		e.require("C26", "full:"+kind, g.S != "zero" || s.eq(g.A[0], Int(0)), "the result holds IDs that are nil", s, pos)
	}
	e.checked("C26", "full:"+kind)
	for _, a := range all {
		if s.nilness(a) == 1 {
			e.require("C26", "full:"+kind, false, "the result holds an ID that is nil", s, pos)
			continue
		}
		reg := s.regionOfSlice(a)
		e.require("C03", "private:"+kind, reg != "kviter" && reg != "store", "a returned ID shares memory with the iterator or the store"+e.dbg("%v", a), s, pos)
		k := s.rw(s.content(a))
		moved := mentions(k, func(i *symInfo) bool { return i.origin == "moved" })
		reused := mentions(k, func(i *symInfo) bool { return i.origin == "overwritten" })
		e.require("C03", "kept:"+kind, !moved && !reused, "a returned ID is overwritten when the iterator moves on", s, pos)
		if !moved {
			whole := wholeID(k)
			e.require("C22", "readback:"+kind, whole, "a returned ID is not the complete ID of an entry"+e.dbg("%v", k), s, pos)
		}
	}
	if w := s.ghost["watchid"]; w != nil && s.ghost["watchfound"] != nil {
		n, sure := 0, true
		for _, g := range segs {
			if g.S == "el" && s.nilness(g.A[1]) != 1 && s.rw(s.content(g.A[1])) == bytesOf(w) {
				n++
			}
			if g.S == "lazy" {
				sure = false
			}
		}
		if sure {
			e.require("C26", "every:"+kind, n > 0, "an ID found in one of the cells is not in the result"+e.dbg("%v", segs), s, pos)
			e.require("C26", "single:"+kind, n < 2, "an ID found once is several times in the result"+e.dbg("%v", segs), s, pos)
		}
	}
	if s.ghost["watchid"] != nil {
		return
	}
	found := s.ghostList("found").Segs
	e.scannedAll(s, kind, pos)
	e.sameIDs(s, kind, segs, found, pos)
}

// allDistinct: the elements are known to differ from each other.
func allDistinct(s *State, segs []*V) bool {
	for i, g := range segs {
		if g.S != "el" {
			return false
		}
		for _, h := range segs[:i] {
			if h.S == "el" && s.truth(s.equal(g.A[1], h.A[1], types.Typ[types.String])) != 0 {
				return false
			}
		}
	}
	return true
}

// wholeID: the content is the complete ID of one entry.
func wholeID(k *V) bool {
	if k.Op != OStr || len(k.A) != 1 || k.A[0].S != "op" {
		return false
	}
	x := k.A[0].A[1]
	if k != bytesOf(x) {
		return false
	}
	for x.Op == OApp && x.S == "at" {
		x = x.A[0]
	}
	return x.Op == OSym && (symOf(x).origin == "entryid" || symOf(x).watched || symOf(x).many || symOf(x).gen)
}

// scannedAll: every cell of the list or of the cover is scanned.
func (e *Engine) scannedAll(s *State, kind string, pos token.Pos) {
	scanned := s.ghostList("scanned").Segs
	n := s.rw(segsLen(scanned))
	if l := s.ghost["askedlist"]; l != nil {
		e.require("C26", "cells:"+kind, s.eq(n, segsLen(l.A)), "not every given cell is consulted"+e.dbg("%v of %v", scanned, l), s, pos)
		return
	}
	if s.ghost["area"] != nil {
		cv := s.ghost["cover"]
		if cv != nil {
			e.require("C26", "cells:"+kind, s.eq(n, App("len", cv)), "not every cell of the cover is consulted"+e.dbg("%v", scanned), s, pos)
		}
		return
	}
	if s.ghost["asked"] != nil {
		e.require("C26", "cells:"+kind, s.eq(n, Int(1)), "the requested cell is not scanned exactly once", s, pos)
	}
}

// sameIDs compares the result with the IDs of the entries found.
func (e *Engine) sameIDs(s *State, kind string, segs, found []*V, pos token.Pos) {
	var want []*V
	for _, g := range found {
		var as []*V
		for _, a := range g.A[1:] {
			as = append(as, a.A[0])
		}
		want = append(want, Seg(g.S, g.A[0], as...))
	}
	var got []*V
	for _, g := range segs {
		var as []*V
		for _, a := range g.A[1:] {
			if g.S == "el" || g.S == "star" {
				a = s.rw(s.content(a))
			}
			as = append(as, a)
		}
		got = append(got, Seg(g.S, g.A[0], as...))
	}
	if s.ghost["askedlist"] != nil || s.ghost["area"] != nil && kind != "point" {
		// a set of IDs: nothing may be listed as often as it was found
		dup := len(want) > 0 && sameOps(s, want, got) && !s.eq(segsLen(want), Int(1)) && !s.eq(segsLen(want), Int(0)) && !(e.bounded > 0 && allDistinct(s, got))
		e.require("C26", "once:"+kind, !dup, "an ID found in several cells is returned several times", s, pos)
		if len(want) > 0 && s.proveGE(AddN(segsLen(want), -1)) {
			e.require("C26", "some:"+kind, len(got) > 0, "IDs found in the cells are not returned", s, pos)
		}
		return
	}
	same := sameOps(s, want, got)
	for _, g := range segs {
		for _, a := range g.A[1:] {
			if o := s.heap[a.Obj]; !same && a.Obj != 0 && o != nil && o.Attrs["part"] != nil && !o.isOverwritten() {
				panic("a list of parts of one buffer is not modelled")
			}
		}
	}
	e.require("C26", "all:"+kind, same, "the result is not the list of the IDs found by the scan"+e.dbg("found %v result %v", want, got), s, pos)
}

// ---- covers as seen by an index ----

// coverSummary stands for the covering functions of geodata, which have their
// own clients.
func (e *Engine) coverSummary(c *Call, fn *ssa.Function) bool {
	s := c.s
	if !s.ghostOn("summarise") {
		return false
	}
	kind := ""
	var rc *V
	switch fullName(fn) {
	case modPath + "/index/geodata.GeoDataToCoverCellUnion", "(*" + modPath + "/index/geodata.GeoData).Cover":
		kind, rc = "Covering", c.args[1]
	case "(*" + modPath + "/index/geodata.GeoData).InteriorCover":
		kind, rc = "InteriorCovering", c.args[1]
	default:
		return false
	}
	c.fails("cover", func(t *State, err *V) { c.ret(t, nilSlice(), err) })
	for _, ch := range e.deref(s, rc, c.types[1], c.pos()) {
		t := ch.s
		f := func(n string) *V {
			if v := t.objField(ch.v, n); v != nil {
				return t.rw(v)
			}
			return App("f:"+n, ch.v)
		}
		x := App("cover", Float(kind), t.region(c.args[0]), f("MinLevel"), f("MaxLevel"), f("LevelMod"))
		c.ret(t, t.reify(x, c.resType(0)), vNil)
	}
	return true
}
