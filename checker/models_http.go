package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Requests to the debug handlers and what they answer.

const httpPkg = "net/http"

// answerState: nothing, an error (through http.Error), the header of an
// error, the header of a success, or a success.
const (
	noAnswer   = "none"
	errAnswer  = "error"
	errHeader  = "errorheader"
	okHeader   = "header"
	okAnswer   = "success"
	someHeader = "anyheader"
)

func (e *Engine) httpModels() {
	const c33 = "C33"
	h := func(name string, f func(c *Call, id ObjID)) {
		e.models["handle:"+name] = func(c *Call) bool {
			f(c, c.args[0].Obj)
			return true
		}
	}
	e.model("client.request", func(c *Call) {
		s := c.s
		s.ghost["request"] = vTrue
		s.ghost["answer"] = Float(noAnswer)
		w := s.newObj(KCell, nil, "fresh")
		w.Attrs["res"], w.Attrs["pinned"] = Float("respwriter"), vTrue
		t := elemType(c.resType(1))
		r := s.newObj(KCell, t, "fresh")
		r.Attrs["pinned"] = vTrue
		x := s.sym("client:request", t)
		r.Val = s.expand(x, t)
		b := s.newObj(KCell, nil, "fresh")
		b.Attrs["res"], b.Attrs["pinned"] = Float("body"), vTrue
		r = s.mut(r.ID)
		s.setFieldOf(r, "Body", Iface(e.extType("io", "ReadCloser"), Ref(b.ID)))
		u := s.sym("client:url", nil)
		symOf(u).nonnil, symOf(u).perm = true, true
		s.setFieldOf(r, "URL", u)
		c.ret(s, Iface(c.resType(0), Ref(w.ID)), Ptr(r.ID))
	})
	e.model("client.tokenAt", func(c *Call) { c.s.ghost["tokenat"] = c.s.rw(c.args[0]); c.ret(c.s) })

	// answers
	state := func(s *State) string { return s.ghost["answer"].S }
	set := func(s *State, a string) { s.ghost["answer"] = Float(a) }
	status := func(c *Call, code *V) string {
		n, ok := isInt(c.s.rw(code))
		switch {
		case !ok:
			return someHeader
		case n >= 400:
			return errHeader
		}
		return okHeader
	}
	bad := func(c *Call, code *V) { // an error is answered
		s := c.s
		if n, ok := isInt(s.rw(code)); ok {
			e.require(c33, "status:"+e.siteKey(s), n >= 400 && n < 500, "a malformed request is not answered with a 4xx status", s, c.pos())
		}
		if os.Getenv("MUST") != "" && !s.malformed() {
			println("MUST", s.dump())
		}
		e.require(c33, "reason:"+e.siteKey(s), s.malformed(), "an error is answered although nothing was found wrong with the request", s, c.pos())
	}
	once := func(c *Call) bool {
		ok := state(c.s) == noAnswer
		e.require(c33, "once:"+e.siteKey(c.s), ok, "a second response is begun", c.s, c.pos())
		return ok
	}
	fail := func(c *Call, code *V) {
		once(c)
		bad(c, code)
		set(c.s, errAnswer)
		c.ret(c.s)
	}
	isW := func(s *State, v *V) bool {
		return v.Op == OIface && v.A[0].Op == ORef && s.attrStr(v.A[0].Obj, "res") == "respwriter"
	}
	e.model(httpPkg+".Error", func(c *Call) { fail(c, c.args[2]) })
	e.model(httpPkg+".NotFound", func(c *Call) { fail(c, Int(404)) })
	write := func(c *Call, body *V) {
		s := c.s
		switch state(s) {
		case errHeader:
		case errAnswer:
			e.require(c33, "after:"+e.siteKey(s), false, "a body is written after an error", s, c.pos())
		case someHeader:
			panic("a status that is not a constant is not modelled")
		default:
			e.require(c33, "success:"+e.siteKey(s), s.ghost["bad"] == nil, "a malformed request is answered with success"+e.dbg("%v", s.ghost["bad"]), s, c.pos())
			if state(s) == okAnswer {
				body = nil // in parts
			}
			s.ghost["answerbody"] = body
			if body == nil {
				delete(s.ghost, "answerbody")
			}
			set(s, okAnswer)
		}
	}
	h("respwriter.Header", func(c *Call, id ObjID) {
		x := c.s.sym("header", c.resType(0))
		symOf(x).nonnil = true
		c.ret(c.s, x)
	})
	e.model("("+httpPkg+".Header).Set ("+httpPkg+".Header).Add ("+httpPkg+".Header).Del", func(c *Call) { c.ret(c.s) })
	h("respwriter.WriteHeader", func(c *Call, id ObjID) {
		if once(c) {
			a := status(c, c.args[1])
			if a == errHeader {
				bad(c, c.args[1])
			}
			set(c.s, a)
		}
		c.ret(c.s)
	})
	written := func(c *Call) {
		n := c.s.sym("written", nil)
		symOf(n).nonneg = true
		err := c.s.sym("writeerr", nil)
		c.ret(c.s, n, err)
	}
	h("respwriter.Write", func(c *Call, id ObjID) {
		write(c, c.s.rw(c.s.content(c.args[1])))
		written(c)
	})
	toW := func(names string, f func(c *Call) *V) {
		e.model(names, func(c *Call) {
			if !isW(c.s, c.args[0]) {
				panic(c.name + " to something else is not modelled")
			}
			write(c, f(c))
			written(c)
		})
	}
	nothing := func(c *Call) *V { return nil }
	toW("fmt.Fprintf fmt.Fprintln", nothing)
	toW("fmt.Fprint", nothing)
	toW("io.WriteString", func(c *Call) *V { return c.str(1) })

	// what a request consists of
	param := func(c *Call) {
		x := App("param", c.str(1))
		c.s.ghost["param"] = x
		c.ret(c.s, c.rv(x))
	}
	e.model("(*net/url.URL).Query", func(c *Call) {
		x := c.s.sym("client:query", c.resType(0))
		symOf(x).nonnil = true
		c.ret(c.s, x)
	})
	e.model("(net/url.Values).Get", param)
	e.model("(*"+httpPkg+".Request).FormValue", param)
	e.model("strings.Split", func(c *Call) {
		s := c.s
		str, sep := c.str(0), c.str(1)
		t := types.Typ[types.String]
		if c.s.ghost["tokenat"] == nil || c.s.ghost["token"] != nil {
			panic("splitting another string is not modelled")
		}
		x := wholeContent(str)
		ok := x != nil && x.Op == OApp && x.S == "param"
		if ok {
			k, known := strConst(x.A[0])
			e.require(c33, "param:cells", known && k == "cells", "the cells are not taken from the parameter cells", s, c.pos())
		}
		if d, known := strConst(sep); !ok || !known || d != "," {
			panic("splitting another string is not modelled")
		}
		w := s.watchSym("client:token", t)
		s.ghost["token"] = w
		el := Seg("el", Int(1), s.reify(w, t))
		segs := []*V{el, s.someElems("client:tokens", t)}
		if s.truth(s.ghost["tokenat"]) == 1 || s.ghost["tokenat"] == Int(2) {
			segs = []*V{segs[1], el}
		}
		s.ghost["tokens"] = segsLen(segs)
		c.ret(s, s.mkSlice(t, segs, "client:tokens"))
	})
	e.model("github.com/gorilla/mux.Vars", func(c *Call) {
		x := c.s.sym("client:vars", c.resType(0))
		symOf(x).perm = true
		c.ret(c.s, c.s.reify(x, c.resType(0)))
	})
	e.model("encoding/json.NewDecoder", func(c *Call) {
		o := c.s.newObj(KCell, nil, "fresh")
		o.Attrs["res"], o.Attrs["pinned"] = Float("jsondecoder"), vTrue
		c.ret(c.s, Ptr(o.ID))
	})
	into := func(c *Call, p *V) {
		s := c.s
		if p.Op == OIface {
			p = p.A[0]
		}
		if p.Op != OPtr || s.heap[p.Obj] == nil || len(p.A) > 0 {
			panic("decoding into this is not modelled")
		}
		t := s.heap[p.Obj].T
		f := s.clone()
		f.rejected("decoding")
		f.store(p, f.reify(f.sym("client:partial", t), t))
		c.ret(f, mkErr(f, "decoding"))
		x := s.sym("client:decoded", t)
		s.store(p, s.reify(x, t))
		s.ghost["decoded"] = x
		c.ret(s, vNil)
	}
	e.model("(*encoding/json.Decoder).Decode", func(c *Call) { into(c, c.args[1]) })
	e.model("encoding/json.Unmarshal", func(c *Call) { into(c, c.args[1]) })
	for _, n := range []string{"FeatureCollection", "Feature"} {
		e.model("(*"+geomPkg+"/encoding/geojson."+n+").UnmarshalJSON", func(c *Call) { into(c, c.args[0]) })
	}
	e.model("io.ReadAll io/ioutil.ReadAll", func(c *Call) {
		f := c.s.clone()
		f.rejected("reading")
		c.ret(f, nilSlice(), mkErr(f, "reading"))
		c.ret(c.s, c.s.reify(c.s.sym("client:body", c.resType(0)), c.resType(0)), vNil)
	})
	e.model(httpPkg+".MaxBytesReader io.LimitReader", func(c *Call) {
		i := 0
		if strings.HasSuffix(c.name, "MaxBytesReader") {
			i = 1
		}
		c.ret(c.s, Iface(c.resType(0), c.args[i].A[0]))
	})
	h("body.Close", func(c *Call, id ObjID) { c.ret(c.s, c.s.sym("closeerr", nil)) })

	// the parts of the repository that are analysed on their own
	old := e.summary
	e.summary = func(c *Call, fn *ssa.Function) bool {
		if old != nil && old(c, fn) {
			return true
		}
		s := c.s
		if !s.ghostOn("request") {
			return false
		}
		n := fullName(fn)
		switch {
		case n == modPath+"/index/geodata.GeoJSONFeatureToGeoData":
			if !e.given(c, 0, "a feature") {
				return true
			}
			fill := func(s *State, what string) {
				if p := c.args[1]; p.Op == OPtr && s.heap[p.Obj] != nil && len(p.A) == 0 {
					t := s.heap[p.Obj].T
					s.store(p, s.reify(s.sym(what, t), t))
				}
			}
			f := s.clone()
			f.rejected("feature")
			fill(f, "partial")
			c.ret(f, mkErr(f, "feature"))
			fill(s, "geo")
			s.ghost["converted"] = c.args[1]
			c.ret(s, vNil)
			return true
		case strings.HasPrefix(n, "(*"+modPath+"/index/geodata.GeoData).") && strings.Contains(fn.Name(), "Cover") && len(c.args) == 2:
			f := s.clone()
			f.rejected("geometry")
			c.ret(f, nilSlice(), mkErr(f, "geometry"))
			rc := func(n string) *V {
				if v := s.objField(c.args[1], n); v != nil {
					return s.rw(v)
				}
				return Float("unknown")
			}
			x := App("cover", Float(fn.Name()), rc("MinLevel"), rc("MaxLevel"), rc("MaxCells"))
			e.require(c33, "geometry:cover", s.ghost["converted"] == c.args[0], "what is covered is not the geometry of the feature", s, c.pos())
			s.ghost["covered"] = x
			c.ret(s, s.reify(x, c.resType(0)), vNil)
			return true
		case n == modPath+"/s2tools.CellUnionToGeoJSON":
			x := App("export", s.items(c.args[0])...)
			c.ret(s, s.reify(x, c.resType(0)))
			return true
		}
		return false
	}
	e.model("client.answered", func(c *Call) {
		s := c.s
		op, _ := strConst(c.str(0))
		c.ret(s)
		a := state(s)
		e.require(c33, "answer:"+op, a != noAnswer && a != okHeader, "a request is not answered", s, c.pos())
		if a != okAnswer {
			return
		}
		x := s.ghost["answerbody"]
		if x != nil {
			x = wholeContent(x)
		}
		if x == nil || x.Op != OApp || x.S != "export" {
			panic("the body of the answer is not modelled")
		}
		switch op {
		case "cells":
			e.cellsAnswer(c, x)
		case "cover":
			e.coverAnswer(c, x)
		}
	})
}

// given: an argument that must not be nil.
func (e *Engine) given(c *Call, i int, what string) bool {
	s := c.s
	switch s.nilness(c.args[i]) {
	case 0:
		return true
	case -1:
		t := s.clone()
		if t.assume(isNilTermS(c.args[i]), true) {
			e.panicAt(t, "nil", what+" that may be nil is used", c.pos())
		}
		return s.assume(isNilTermS(c.args[i]), false)
	}
	e.panicAt(s, "nil", what+" that is nil is used", c.pos())
	return false
}

// malformed tells whether something is known to be wrong with the request.
func (s *State) malformed() bool {
	if s.ghost["bad"] != nil {
		return true
	}
	for f, b := range s.facts {
		if f.Op == OApp && f.S == "isnil" && b && mentions(f, func(i *symInfo) bool {
			return i.origin == "client:vars" || i.origin == "client:decoded"
		}) {
			return true
		}
	}
	if x := s.ghost["param"]; x != nil && s.eq(App("len", x), Int(0)) {
		return true
	}
	number := func(x *V) bool { return x.Op == OApp && x.S == "number" }
	for f, b := range s.facts {
		if f.Op == OApp && f.S == "validcell" && !b {
			return true
		}
		if f.Op == OApp && (f.S == "isnumber" || f.S == "maphas") && !b {
			return true
		}
	}
	var terms []*V
	zero := false
	add := func(v *V) {
		walk(v, func(x *V) {
			if x.Op == OApp && x.S == "fromtoken" && s.eq(x, Int(0)) {
				zero = true
			}
			if number(x) {
				terms = append(terms, x)
			}
		})
	}
	for _, l := range s.lins {
		add(l)
	}
	for _, q := range s.eqs {
		add(q.atom)
	}
	for f := range s.facts {
		add(f)
	}
	if zero {
		return true
	}
	for _, x := range terms {
		if s.proveGE(AddN(MulN(s.rw(x), -1), -1)) || s.proveGE(AddN(s.rw(x), -31)) {
			return true
		}
	}
	if d := s.ghost["decoded"]; d != nil {
		fs := App("f:Features", d)
		n := App("len", fs)
		if s.truth(Eq0(AddN(n, -1))) == 0 || s.truth(App("isnil", fs)) == 1 || s.truth(App("isnil", App("elem", fs, Int(0)))) == 1 {
			return true
		}
	}
	return false
}

// cellsAnswer: success means that every cell of the query is valid and is
// exported in its place.
func (e *Engine) cellsAnswer(c *Call, x *V) {
	s := c.s
	w := s.ghost["token"]
	if w == nil {
		panic("a query that is not split is not modelled")
	}
	cell := App("fromtoken", w)
	pos, n := Int(0), segsLen(x.A)
	found := false
	for _, g := range x.A {
		if s.watchedSeg(g) && g.S == "el" {
			found = true
			cell = s.rw(g.A[1])
			break
		}
		pos = Add(pos, g.A[0])
	}
	d := e.dbg("%v", x)
	e.require("C33", "exported:cells", found && (cell == w || contains(cell, w)), "a cell of the query is not in the answer"+d, s, c.pos())
	if !found {
		return
	}
	want := Int(0)
	if s.ghost["tokenat"] == Int(2) {
		want = AddN(s.ghost["tokens"], -1)
	}
	e.require("C33", "order:cells", s.eq(pos, want) && s.eq(n, s.ghost["tokens"]), "the answer does not have one entry for each cell of the query"+d, s, c.pos())
	e.require("C33", "valid:cells", s.truth(App("validcell", cell)) == 1, "a malformed cell is answered with success"+d, s, c.pos())
}

// coverAnswer: success means that the parameters are numbers in range, that
// there is one feature, and that its cover is exported.
func (e *Engine) coverAnswer(c *Call, x *V) {
	s := c.s
	cov := s.ghost["covered"]
	ok := cov != nil && len(x.A) == 1 && x.A[0].S == "lazy" && x.A[0].A[1] == cov && s.eq(x.A[0].A[0], App("len", cov)) && x.A[0].A[2] == Int(0)
	d := e.dbg("%v of %v", x, cov)
	e.require("C33", "exported:cover", ok, "the answer is not the cover of the feature"+d, s, c.pos())
	if !ok {
		return
	}
	for i, name := range []string{"min_level", "max_level", "max_cells"} {
		v := cov.A[i+1]
		good := v.Op == OApp && v.S == "number"
		if good {
			good = false
			walk(v, func(y *V) {
				if k, ok := strConst(y); ok && k == name {
					good = true
				}
			})
		}
		e.require("C33", name+":cover", good, "the cover is not made with the parameter "+name+d, s, c.pos())
		if !good {
			continue
		}
		num := App("isnumber", v.A...)
		e.require("C33", "number:"+name, s.truth(num) == 1, "a parameter that is not a number is answered with success"+d, s, c.pos())
		in := s.proveGE(v)
		if i < 2 {
			in = in && s.proveGE(AddN(MulN(v, -1), 30))
		}
		e.require("C33", "range:"+name, in, "a parameter out of range is answered with success"+d, s, c.pos())
	}
	dec := s.ghost["decoded"]
	if dec == nil {
		return
	}
	fs := App("f:Features", dec)
	e.require("C33", "one:cover", s.eq(App("len", fs), Int(1)), "a body with no feature, or more than one, is answered with success", s, c.pos())
}
