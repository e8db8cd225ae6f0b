package main

import (
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) extType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic("package " + pkg + " is not loaded")
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func setup(p *Program) *Engine {
	e := newEngine(p.prog)
	e.inline = func(fn *ssa.Function) bool {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Pkg != nil && p.repo[f.Pkg] || isClientFn(f)
	}
	e.stdModels()
	e.kvModels()
	e.clientModels()
	e.model("client.backend", func(c *Call) {
		c.s.ghost["backend"] = Float(mustStr(c.args[0]))
		c.s.ghostList("want")
		c.s.ghostList("merged")
		c.ret(c.s)
	})
	e.boltModels()
	e.leveldbModels()
	e.badgerModels()
	e.gtreapModels()
	e.s2Models()
	e.indexModels()
	e.geoModels()
	e.textModels()
	e.cellModels()
	e.exportModels()
	e.httpModels()
	e.openModels()
	for sp := range p.repo {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				e.addRepo(f)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil {
							e.addRepo(f)
						}
					}
				}
			}
		}
	}
	if kv := p.clients["kv"]; kv != nil {
		e.redirect["(*"+treapPkg+".Treap).VisitAscend"] = kv.Func("visitAscend")
	}
	e.onPanic = func(s *State, kind, msg string, pos token.Pos) {
		if e.debug {
			fmt.Printf("PANIC %s %s at %s\n", kind, msg, e.where(pos))
			fmt.Println(strings.ReplaceAll(s.dump(), "\n", "\nP:"))
		}
		if p := s.ghostStr("panics"); p != "" {
			fn := "?"
			if f := s.repoFrame(); f != nil {
				fn = f.fn.String()
			}
			e.violate(p, "panic:"+kind+":"+fn, msg, s, pos)
		}
	}
	return e
}

func (e *Engine) addRepo(f *ssa.Function) {
	if e.allRepo[f] {
		return
	}
	e.allRepo[f] = true
	for _, a := range f.AnonFuncs {
		e.addRepo(a)
	}
}

// runClient analyses a client, again when the analysis finds that the loops
// have to be split at a watched element.
func runClient(p *Program, pkg, name string, prepare func(e *Engine)) (*Engine, error) {
	var marks map[*ssa.BasicBlock]map[watchMark]bool
	for n := 0; ; n++ {
		e := setup(p)
		prepare(e)
		if marks != nil {
			e.watchIdx = marks
		}
		e.mayRestart = n < 8
		err := e.runClient1(p, pkg, name)
		if err == errRestart {
			marks = e.watchIdx
			continue
		}
		return e, err
	}
}

func (e *Engine) runClient1(p *Program, pkg, name string) (err error) {
	sp := p.clients[pkg]
	fn := sp.Func(name)
	if fn == nil {
		return fmt.Errorf("no client %s.%s", pkg, name)
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("internal error in client %s: %v\n%s", name, r, debug.Stack())
		}
	}()
	e.client = pkg + "." + name
	s := newState(e)
	e.pushFrame(s, fn, nil, nil, "client:"+pkg+"."+name)
	return e.Run(s)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("clients", "clients", "")
	run := flag.String("run", "", "clients to run, pkg.name,...")
	dbg := flag.Bool("debug", false, "")
	bounded := flag.Int("bounded", 0, "follow loops for so many rounds instead of finding invariants")
	max := flag.Int("max", 300000, "")
	limit := flag.Duration("limit", 200*time.Second, "")
	prop := flag.String("check", "", "property to check")
	evidence := flag.String("evidence", "", "")
	required := flag.String("required", "required.txt", "")
	known := flag.String("known", "", "")
	list := flag.String("list", "", "client packages whose obligations to list")
	flag.Parse()
	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *list != "" {
		os.Exit(listNeeds(*repo, *cdir, strings.Split(*list, ",")))
	}
	if *prop != "" {
		os.Exit(runCheck(checkOpts{*repo, *cdir, *prop, *evidence, *required, *known}))
	}
	pkgs := map[string]bool{}
	var pl []string
	for _, r := range strings.Split(*run, ",") {
		pkgs[strings.Split(r, ".")[0]] = true
	}
	for k := range pkgs {
		pl = append(pl, k)
	}
	sort.Strings(pl)
	p, err := load(*repo, *cdir, pl)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, r := range strings.Split(*run, ",") {
		i := strings.Split(r, ".")
		e, err := runClient(p, i[0], i[1], func(e *Engine) {
			e.debug = *dbg
			e.bounded = *bounded
			e.prof = map[string]int{}
			e.maxSteps = *max
			e.deadline = time.Now().Add(*limit)
		})
		if err != nil {
			fmt.Println("ERROR", err)
		}
		for _, x := range e.incomplete {
			fmt.Println("INCOMPLETE", x)
		}
		e.finish()
		fmt.Printf("%s: states %d steps %d calls %d joins %d ended %d funcs %d\n", r, e.Stats.States, e.Stats.Steps, e.Stats.Calls, e.Stats.Joins, e.ended, len(e.funcs))
		if *dbg {
			for k, n := range e.prof {
				if n > 100 {
					fmt.Println("  prof", n, k)
				}
			}
			hc := map[string]int{}
			for k, h := range e.heads {
				f := h.pat.top()
				i := strings.Index(k, "!sig!")
				_ = i
				hc[fmt.Sprintf("%s#%d", f.fn, f.blk.Index)]++
			}
			fmt.Println("  heads", hc)
		}
		for pr, m := range e.oblig {
			fmt.Println("  obligations", pr, len(m), keys(m))
		}
		for _, v := range e.viols {
			fmt.Println("VIOL", v.Prop, v.Key, v.Msg, v.Pos)
			if *dbg {
				for _, t := range v.Trace {
					fmt.Println("     ", t)
				}
			}
		}
		fmt.Println("  unknown:", keys(e.unknown))
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
