package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type decl struct {
	name   string
	text   string
	order  int
	sorts  []string // sorts mentioned
	axioms []*Term
}

type sortDecl struct {
	name  string
	text  string
	deps  []string
	order int
}

var decls = map[string]*decl{}
var sortDecls = map[string]*sortDecl{}
var declOrder int

type axiom struct {
	needs []string // all of these symbols must be present
	t     *Term
	name  string
}

var axioms []*axiom

func declareConst(name, sort string) {
	if _, ok := decls[name]; ok {
		return
	}
	declOrder++
	decls[name] = &decl{name: name, text: fmt.Sprintf("(declare-fun %s () %s)", name, sort), order: declOrder, sorts: []string{sort}}
}

func declareFun(name string, args []string, ret string) {
	if _, ok := decls[name]; ok {
		return
	}
	declOrder++
	decls[name] = &decl{name: name, text: fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret), order: declOrder, sorts: append(append([]string{}, args...), ret)}
}

// app applies a declared function, declaring it on first use.
func app(ret, name string, args ...*Term) *Term {
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	if len(as) == 0 {
		declareConst(name, ret)
	} else {
		declareFun(name, as, ret)
	}
	return mk(ret, name, args...)
}

func declareSort(name, text string, deps ...string) {
	if _, ok := sortDecls[name]; ok {
		return
	}
	declOrder++
	sortDecls[name] = &sortDecl{name: name, text: text, deps: deps, order: declOrder}
}

func addAxiom(name string, t *Term, needs ...string) {
	axioms = append(axioms, &axiom{needs: needs, t: t, name: name})
}

// literals: distinct string constants and so on; group -> constants
type distinctGroup struct{ members []*Term }

var distinctGroups = map[string]*distinctGroup{}

func markDistinct(group string, t *Term) {
	if distinctConsts[t] {
		return
	}
	distinctConsts[t] = true
	g := distinctGroups[group]
	if g == nil {
		g = &distinctGroup{}
		distinctGroups[group] = g
	}
	g.members = append(g.members, t)
}

func sortsIn(s string) []string {
	s = strings.NewReplacer("(", " ", ")", " ").Replace(s)
	return strings.Fields(s)
}

type obligation struct {
	fn     string
	name   string   // human readable, stable
	props  []string // property ids
	facts  []*Term
	goal   *Term
	trace  []string
	script string
	kind   string
	// result
	status string // proved, failed, unknown
	solver string
	secs   float64
	output string
	size   int
}

// buildScript renders facts and the negated goal as an SMT-LIB script.
func buildScript(facts []*Term, goal *Term, extraHeader string) string {
	used := map[string]bool{}
	usedTerms := map[*Term]bool{}
	usedSorts := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if usedTerms[t] {
			return
		}
		usedTerms[t] = true
		if !t.bv {
			used[t.op] = true
		}
		if t.op == "constarr" {
			for _, x := range sortsIn(t.sort) {
				usedSorts[x] = true
			}
		}
		for _, v := range t.vars {
			for _, x := range sortsIn(v.sort) {
				usedSorts[x] = true
			}
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, f := range facts {
		visit(f)
	}
	if goal != nil {
		visit(goal)
	}
	var ax []*Term
	done := make([]bool, len(axioms))
	for {
		ch := false
		for i, a := range axioms {
			if done[i] {
				continue
			}
			ok := true
			for _, n := range a.needs {
				if !used[n] {
					ok = false
					break
				}
			}
			if ok {
				done[i] = true
				ch = true
				ax = append(ax, a.t)
				visit(a.t)
			}
		}
		if !ch {
			break
		}
	}
	var ds []*decl
	for n := range used {
		if d, ok := decls[n]; ok {
			ds = append(ds, d)
			for _, s := range d.sorts {
				for _, x := range sortsIn(s) {
					usedSorts[x] = true
				}
			}
		}
		// datatype constructors and selectors
		if s, ok := symSort[n]; ok {
			usedSorts[s] = true
		}
	}
	for {
		ch := false
		for s := range usedSorts {
			if sd, ok := sortDecls[s]; ok {
				for _, d := range sd.deps {
					for _, x := range sortsIn(d) {
						if !usedSorts[x] {
							usedSorts[x] = true
							ch = true
						}
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	var sds []*sortDecl
	for s := range usedSorts {
		if sd, ok := sortDecls[s]; ok {
			sds = append(sds, sd)
		}
	}
	sort.Slice(sds, func(i, j int) bool { return sds[i].order < sds[j].order })
	sort.Slice(ds, func(i, j int) bool { return ds[i].order < ds[j].order })
	var b strings.Builder
	b.WriteString(extraHeader)
	for _, s := range sds {
		b.WriteString(s.text)
		b.WriteByte('\n')
	}
	for _, d := range ds {
		b.WriteString(d.text)
		b.WriteByte('\n')
	}
	var gs []string
	for g := range distinctGroups {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		var ms []string
		for _, m := range distinctGroups[g].members {
			if usedTerms[m] && len(m.args) == 0 {
				ms = append(ms, m.String())
			}
		}
		if len(ms) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ms, " "))
		}
	}
	for _, a := range ax {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	for _, f := range facts {
		fmt.Fprintf(&b, "(assert %s)\n", f)
	}
	if goal != nil {
		fmt.Fprintf(&b, "(assert (not %s))\n", goal)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var symSort = map[string]string{}

// solver -------------------------------------------------------------------

type solverCfg struct {
	name string
	args []string
	hdr  string
}

var solvers = []solverCfg{
	{"z3-5", []string{"z3-new", "-in", "-smt2"}, "(set-option :smt.mbqi false)\n"},
	{"z3-5-mbqi", []string{"z3-new", "-in", "-smt2"}, ""},
	{"z3-4.8", []string{"z3", "-in", "-smt2"}, ""},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}, "(set-logic ALL)\n"},
}

var solverStats = struct {
	sync.Mutex
	calls map[string]int
	secs  map[string]float64
}{calls: map[string]int{}, secs: map[string]float64{}}

func runSolver(cfg solverCfg, script string, timeout time.Duration) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, cfg.args[1:]...)
	switch {
	case strings.HasPrefix(cfg.name, "z3"):
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	case cfg.name == "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(ctx, cfg.args[0], args...)
	if cfg.name == "cvc5" {
		// symbols starting with @ are reserved there
		script = strings.ReplaceAll(script, "@", "~")
	}
	cmd.Stdin = strings.NewReader(cfg.hdr + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	solverStats.Lock()
	solverStats.calls[cfg.name]++
	solverStats.secs[cfg.name] += d
	solverStats.Unlock()
	s := strings.TrimSpace(out.String())
	return s, d
}

// prove reports whether the script is unsatisfiable, trying the solvers in turn.
func proveFor(script string, to time.Duration) (status, solver, out string, secs float64) {
	type res struct {
		name, out string
		secs      float64
	}
	ch := make(chan res, len(solvers))
	for _, c := range solvers {
		c := c
		go func() {
			o, d := runSolver(c, script, to)
			ch <- res{c.name, firstLine(o), d}
		}()
	}
	status = "unknown"
	for range solvers {
		r := <-ch
		secs += r.secs
		out += r.name + ": " + r.out + "\n"
		if r.out == "unsat" {
			status, solver = "proved", r.name
		} else if r.out == "sat" && status != "proved" {
			status, solver = "failed", r.name
		}
	}
	return
}

func prove(script string, quick bool) (status, solver, out string, secs float64) {
	last := ""
	sat := false
	for i, c := range solvers {
		to := 4 * time.Second
		if i > 0 {
			to = 10 * time.Second
		}
		if quick {
			to = 1500 * time.Millisecond
			if i > 0 {
				break
			}
		}
		o, d := runSolver(c, script, to)
		secs += d
		if strings.Contains(o, "error") && !strings.HasPrefix(o, "unsat") {
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", c.name, firstLine(o))
				os.WriteFile("/tmp/gover-err.smt2", []byte(c.hdr+script), 0644)
			}
			last += c.name + ": " + firstLine(o) + "\n"
			continue
		}
		f := firstLine(o)
		last += c.name + ": " + f + "\n"
		if f == "unsat" {
			return "proved", c.name, last, secs
		}
		if f == "sat" {
			sat = true
			// with mbqi disabled z3 does not answer sat on quantified input;
			// a sat answer is definitive
			return "failed", c.name, last, secs
		}
	}
	_ = sat
	return "unknown", "", last, secs
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
