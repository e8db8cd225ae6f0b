package main

import "go/types"

// A cursor is an engine iterator: attributes src (snapshot or transaction),
// lo, hi, hiNil, prefix (bounds the engine itself enforces), cur (content of
// the current key, nil when it is not at an entry).

func (e *Engine) newCursor(c *Call, s *State, kind string, t types.Type, src *V, region string) *Obj {
	o := s.newObj(KCell, t, region)
	o.Attrs["res"] = Float(kind)
	o.Attrs["open"] = vTrue
	o.Attrs["pinned"] = vTrue
	o.Attrs["src"] = src
	o.Attrs["cur"] = vNil
	o.Attrs["reg"] = Float(region)
	o.Val = vNil
	return o
}

// lateRead checks that a read through an open reader uses its snapshot.
func (e *Engine) snapshotRead(c *Call, src ObjID, what string) {
	if c.s.ghostOn("snapshot") {
		late := src == 0 || c.s.attr(src, "late") != nil
		e.require("C08", what+":"+e.siteKey(c.s), !late, "a read through an open reader does not come from the snapshot the reader took when it was opened", c.s, c.pos())
	}
}

// cursorMove puts the cursor at some entry at or after lower and after prev,
// or at the end.
func (e *Engine) cursorMove(c *Call, s *State, id ObjID, lower, prev *V, end func(t *State), at func(t *State, k *V)) {
	t := s.clone()
	t.note(c.pos(), "the cursor is at the end")
	t.setAttr(id, "cur", vNil)
	if t.attr(id, "opened") == nil {
		end(t)
	}
	lo := s.attr(id, "lo")
	if lower == nil {
		lower = lo
		lo = nil
	}
	if s.ghostOn("compact") {
		prev = nil // the order of the entries does not matter
	}
	k := engineKey(s, lower, prev, 1)
	ok := true
	if lo != nil && lo.Op == OStr {
		ok = ok && s.assume(GE(s.cmp(k, lo)), true)
	}
	if hi := s.attr(id, "hi"); hi != nil && hi.Op == OStr {
		if hn := s.attr(id, "hinil"); hn != nil && s.truth(hn) != 0 {
			if s.truth(hn) == -1 {
				// bounded or not
				u := s.clone()
				if u.assume(hn, true) {
					u.setAttr(id, "cur", k)
					at(u, k)
				}
				ok = ok && s.assume(hn, false)
				ok = ok && s.assume(GE(AddN(s.cmp(hi, k), -1)), true)
			}
		} else {
			ok = ok && s.assume(GE(AddN(s.cmp(hi, k), -1)), true)
		}
	}
	if p := s.attr(id, "prefix"); p != nil && p.Op == OStr {
		ok = ok && s.assume(App("hasprefix", k, p), true)
	}
	if !ok {
		return
	}
	s.setAttr(id, "cur", k)
	s.note(c.pos(), "the cursor is at an entry")
	at(s, k)
}

// memOf makes engine memory with the given content.
func (s *State) memOf(content *V, region, tag string) *V {
	o := s.newObjAt(s.here()+tag, KArr, types.Typ[types.Byte], region, 0)
	o.Bytes = true
	o.Segs = content.A
	n := strLen(content)
	return SliceV(o.ID, Int(0), n, n, vFalse)
}

// useRes reports the use of an engine handle that has been released.
func (e *Engine) useRes(c *Call, id ObjID) bool {
	if c.s.isOpen(id) {
		return true
	}
	k := "closed:" + e.siteKey(c.s)
	if c.s.attrStr(id, "res") == "iter" {
		e.violate("C16", k, shortName(c.name)+" on an engine iterator that has been released", c.s, c.pos())
	}
	e.violate("C08", k, shortName(c.name)+" on an engine handle that has been released", c.s, c.pos())
	return false
}
