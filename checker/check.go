package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A check analyses the client programs that bear on one property and reports
// what was discharged.

// need is a line of required.txt: an obligation the property must reach when
// a client is analysed.
type need struct {
	prop, client, kind string
}

// mechanism lists rules that apply to one way of doing things; code that does
// it in another way need not reach them.
var mechanism = map[string]bool{
	"C05 retain": true, "C05 operand": true, "C07 sync": true, "C13 lock": true, "C13 tx": true, "C13 base": true, "C13 exclude": true,
	"C17 held": true, "C17 golocks": true, "C17 recv": true, "C18 lock": true, "C18 access": true, "C15 order": true,
}

// kindOf names the rule of an obligation, without the construct of the
// repository it was instantiated for: those move in refactorings.
func kindOf(key string) string {
	ps := strings.Split(key, ":")
	for i, p := range ps {
		if i > 0 && strings.ContainsAny(p, "(/.*") {
			ps[i] = "*"
		}
	}
	return strings.Join(ps, ":")
}

func readNeeds(file string) ([]need, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []need
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 3 && !strings.HasPrefix(l, "#") {
			out = append(out, need{f[0], f[1], f[2]})
		}
	}
	return out, nil
}

// readKnown reads the findings that are recorded rather than repaired.
func readKnown(file, prop string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		p := strings.SplitN(rest, " ", 2)
		if len(p) == 2 && strings.HasPrefix(p[0], "key=") {
			out[strings.TrimPrefix(p[0], "key=")] = p[1]
		}
	}
	return out, sc.Err()
}

func clientList(sp *ssa.Package) []string {
	var out []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && len(f.Blocks) > 0 && n[0] >= 'A' && n[0] <= 'Z' {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// deepClient tells the clients that only the thorough tier analyses.
func deepClient(name string) bool {
	return strings.HasPrefix(name[strings.Index(name, ".")+1:], "Deep")
}

type checkOpts struct {
	repo, dir, prop, evidence, required, known string
}

// bounds on the time a check takes
const (
	perClientTime = 120 * time.Second
	boundedTime   = 40 * time.Second
	wholeTime     = 600 * time.Second
)

func runCheck(o checkOpts) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	needs, err := readNeeds(o.required)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	known, err := readKnown(o.known, o.prop)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	pkgs := map[string]bool{}
	clients := map[string]bool{}
	for _, n := range needs {
		if n.prop == o.prop {
			pkgs[strings.Split(n.client, ".")[0]] = true
			if tier == "thorough" || !deepClient(n.client) {
				clients[n.client] = true
			}
		}
	}
	if len(pkgs) == 0 {
		fmt.Println("error: nothing is required of", o.prop)
		return 2
	}
	var list []string
	for k := range pkgs {
		list = append(list, k)
	}
	sort.Strings(list)

	viols := map[string]*Violation{}
	var incomplete, bounded []string
	perClient := map[string]interface{}{}
	obl := map[string]map[string]bool{} // kind -> instances
	got := map[string]bool{}            // client + kind
	funcs := map[string]bool{}
	sites := map[string]bool{}
	unknown := map[string]bool{}
	states, steps, calls, joins, ended, loops := 0, 0, 0, 0, 0, 0
	p, err := load(o.repo, o.dir, list)
	if err != nil {
		viols["load"] = &Violation{Prop: o.prop, Key: "load", Msg: "the tree cannot be analysed: " + err.Error()}
	} else {
		var names []string
		for k := range clients {
			names = append(names, k)
		}
		sort.Strings(names)
		var prev *Engine
		for _, name := range names {
			i := strings.Split(name, ".")
			run := func(limit time.Duration, bounded int) *Engine {
				e, err := runClient(p, i[0], i[1], func(e *Engine) {
					e.share(prev)
					e.onlyProp = map[string]bool{o.prop: true}
					e.bounded = bounded
					e.deadline = time.Now().Add(limit)
					end := start.Add(wholeTime)
					if bounded > 0 {
						end = end.Add(2 * boundedTime)
					}
					if e.deadline.After(end) {
						e.deadline = end
					}
				})
				prev = e
				if err != nil && bounded == 0 {
					e.incomplete = append(e.incomplete, name+": "+firstLine(err.Error()))
				}
				e.finish()
				e.cut = err != nil
				return e
			}
			e := run(perClientTime, 0)
			incomplete = append(incomplete, e.incomplete...)
			found := e.viols
			if len(found) == 0 && (len(e.incomplete) > 0 || tier == "thorough") {
				// no invariants were found: follow the loops for a few rounds,
				// which cannot discharge anything but can refute
				b := run(boundedTime, 2)
				found = b.viols
				steps += b.Stats.Steps
				bounded = append(bounded, name)
			} else if len(found) > 0 && e.widened() && (i[0] == "index" || i[0] == "s2tools") {
				// what an invariant of a loop over lists refutes may only have
				// been lost by it: some execution has to show a violation
				b := run(boundedTime, 2)
				steps += b.Stats.Steps
				if len(b.viols) == 0 && !b.cut && len(b.incomplete) == 0 {
					found = nil
					incomplete = append(incomplete, name+": "+strconv.Itoa(len(e.viols))+" obligations are not discharged by the invariants found for its loops, and no execution of two rounds refutes them")
				}
			}
			for k, v := range found {
				if viols[k] == nil {
					viols[k] = v
				}
			}
			for k := range e.oblig[o.prop] {
				kind := kindOf(k)
				if obl[kind] == nil {
					obl[kind] = map[string]bool{}
				}
				obl[kind][k] = true
				got[name+" "+kind] = true
			}
			for f := range e.funcs {
				if p.repo[pkgOf(f)] {
					funcs[f.String()] = true
				}
			}
			for k := range e.sites {
				sites[k] = true
			}
			for k := range e.unknown {
				unknown[k] = true
			}
			states += e.Stats.States
			steps += e.Stats.Steps
			calls += e.Stats.Calls
			joins += e.Stats.Joins
			ended += e.ended
			loops += len(e.heads)
			perClient[name] = map[string]int{"abstract_states": e.Stats.States, "instructions": e.Stats.Steps, "paths_to_the_end": e.ended, "loop_invariants": len(e.heads)}
		}
		for _, n := range needs {
			if n.prop == o.prop && clients[n.client] && n.kind[0] != '?' && !got[n.client+" "+n.kind] && len(e0(viols)) == 0 {
				stuck := false
				for _, x := range incomplete {
					if strings.HasPrefix(x, n.client+":") {
						stuck = true
					}
				}
				k := o.prop + "|unreached:" + n.client + ":" + n.kind
				if stuck || viols[k] != nil {
					continue
				}
				viols[k] = &Violation{Prop: o.prop, Key: "unreached:" + n.client + ":" + n.kind, Client: n.client,
					Msg: "no execution of " + n.client + " reaches the point where " + n.kind + " is decided: the operation never completes"}
			}
		}
	}
	var keysV []string
	for k := range viols {
		keysV = append(keysV, k)
	}
	sort.Strings(keysV)
	var fresh []*Violation
	for _, k := range keysV {
		v := viols[k]
		if what, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, what)
			continue
		}
		fresh = append(fresh, v)
	}
	total, bad := 0, map[string]bool{}
	for _, v := range viols {
		bad[v.Key] = true
	}
	var kinds []string
	discharged := 0
	for k, m := range obl {
		kinds = append(kinds, fmt.Sprintf("%s (%d)", k, len(m)))
		total += len(m)
		for x := range m {
			if !bad[x] {
				discharged++
			}
		}
	}
	sort.Strings(kinds)
	cov := map[string]interface{}{
		"explanation": "path-sensitive abstract interpretation (typestate and value flow over go/ssa, loops widened to a fixpoint) of the repository's code under client programs that call it in every way the client allows; nothing is executed. An obligation is one rule at one construct; it is discharged when it holds in every abstract state in which it is decided.",
		"obligations": total, "discharged": discharged,
		"rules":              kinds,
		"clients":            perClient,
		"functions_analysed": sorted(funcs), "call_sites": sorted(sites), "calls_without_a_model": sorted(unknown),
		"abstract_states": states, "instructions_interpreted": steps, "calls_analysed": calls, "states_merged": joins, "paths_to_the_end": ended, "loop_invariants": loops,
		"incomplete": incomplete, "loops_followed_for_two_rounds_only": bounded,
	}
	if p != nil {
		cov["packages"] = len(p.repo)
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(o.evidence), 0o777)
	if err := os.WriteFile(o.evidence, append(b, '\n'), 0o666); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	for _, x := range incomplete {
		fmt.Println("not completed:", x)
	}
	if len(fresh) == 0 {
		fmt.Printf("%s: %d obligations at %d call sites of %d functions, %d discharged\n", o.prop, total, len(sites), len(funcs), discharged)
		return 0
	}
	replay := strings.TrimSuffix(o.evidence, ".json") + ".replay.txt"
	var r strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&r, "%s %s\n%s\nat %s\nclient %s\n", v.Prop, v.Key, v.Msg, v.Pos, v.Client)
		for _, t := range v.Trace {
			fmt.Fprintf(&r, "    %s\n", t)
		}
		fmt.Fprintln(&r)
	}
	os.WriteFile(replay, []byte(r.String()), 0o666)
	for _, v := range fresh {
		fmt.Printf("%s: %s [%s, %s]\n", v.Pos, v.Msg, v.Key, v.Client)
	}
	abs, _ := filepath.Abs(replay)
	fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, abs)
	return 1
}

// e0 lists violations other than unreached obligations.
func e0(m map[string]*Violation) []string {
	var out []string
	for k := range m {
		if !strings.Contains(k, "|unreached:") {
			out = append(out, k)
		}
	}
	return out
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var assumptions = []string{
	"the models of the storage engines, of the S2, GeoJSON and standard libraries describe what those dependencies do (DESIGN.md lists them)",
	"merge operators and callbacks of the user return and do not panic; a merge operator returns a non-nil value when it reports success",
	"calls listed under calls_without_a_model return opaque values and do not write to their arguments",
}

// listNeeds prints what every client decides on this tree, for required.txt.
func listNeeds(repo, dir string, pk []string) int {
	p, err := load(repo, dir, pk)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	lines := map[string]bool{}
	code := 0
	var prev *Engine
	for _, d := range pk {
		for _, n := range clientList(p.clients[d]) {
			e, err := runClient(p, d, n, func(e *Engine) { e.share(prev) })
			prev = e
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				code = 1
			}
			for _, x := range e.incomplete {
				fmt.Fprintln(os.Stderr, x)
			}
			e.finish()
			for _, v := range e.viols {
				fmt.Fprintln(os.Stderr, "VIOL", v.Client, v.Prop, v.Key, v.Msg)
				code = 1
			}
			for pr, m := range e.oblig {
				for k := range m {
					kind := kindOf(k)
					if mechanism[pr+" "+strings.Split(kind, ":")[0]] {
						kind = "?" + kind
					}
					lines[fmt.Sprintf("%s %s.%s %s", pr, d, n, kind)] = true
				}
			}
		}
	}
	for _, l := range sorted(lines) {
		fmt.Println(l)
	}
	return code
}
