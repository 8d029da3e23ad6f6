package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// unitResult is what a worker reports about one function under contract.
type unitResult struct {
	Key       string
	File      string // contract file
	Status    string // ok, unsupported, missing, vacuous
	Msg       string
	Obls      []oblJSON
	Notes     []string
	Hints     []string // inputs to replay first
	Inlined   []string
	Contracts []string
	Accessors []string
	Paths     int
	Calls     map[string]int
	Secs      map[string]float64
	Wall      float64
}

type oblJSON struct {
	Name, Kind     string
	Props          []string
	Status, Solver string
	Secs           float64
	Output         string   `json:",omitempty"`
	Trace          []string `json:",omitempty"`
	Goal           string   `json:",omitempty"`
}

func has(l []string, p string) bool {
	for _, x := range l {
		if x == p {
			return true
		}
	}
	return false
}

// specConcerns: the contract has something to say about the property.
func specConcerns(sp *FuncSpec, p string) bool {
	u := &Unit{spec: sp}
	return has(u.allProps(), p)
}

// cmdWorker verifies some units for one property and prints the result.
func cmdWorker(prop, wasm string, keys []string) {
	solverPar, curProp = 3, prop
	e := mustLoad(wasm == "wasm", specGroup(keys[0]))
	var out []*unitResult
	for _, k := range keys {
		out = append(out, e.runUnit(prop, k))
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

func (e *Engine) runUnit(prop, k string) *unitResult {
	r := &unitResult{Key: k, Status: "ok"}
	t0 := time.Now()
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	if strings.HasPrefix(k, "@") {
		e.runExtra(prop, k[1:], r)
		return r
	}
	sp := e.specs.funcs[k]
	if sp == nil {
		r.Status, r.Msg = "missing", e.specMissing[k]
		return r
	}
	r.File = sp.file
	fn := e.fnByKey[k]
	e.obls, e.paths, e.steps = nil, 0, 0
	e.notes, e.inlined, e.contractsUsed, e.accessorsUsed = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	solverStats.Lock()
	solverStats.calls, solverStats.secs = map[string]int{}, map[string]float64{}
	solverStats.Unlock()
	if err := e.verifyUnit(fn, sp); err != nil {
		r.Status, r.Msg = "unsupported", err.Error()
		return r
	}
	want := map[string]bool{prop: true}
	e.solve(want)
	r.Paths = e.paths
	for _, o := range e.obls {
		if o.status == "skipped" {
			continue
		}
		if o.status == "proved" && len(o.props) > 0 && !has(o.props, prop) {
			continue
		}
		j := oblJSON{Name: o.name, Kind: o.kind, Props: o.props, Status: o.status, Solver: o.solver, Secs: o.secs}
		if o.status != "proved" {
			j.Output, j.Trace, j.Goal = o.output, o.trace, trunc(o.goal.String(), 2000)
		}
		r.Obls = append(r.Obls, j)
	}
	if e.vacuous(e.cur) {
		r.Status, r.Msg = "vacuous", "the assumptions of the contract exclude every return"
	}
	r.Hints = tableHints()
	r.Notes, r.Inlined, r.Contracts, r.Accessors = sortedKeys(e.notes), sortedKeys(e.inlined), sortedKeys(e.contractsUsed), sortedKeys(e.accessorsUsed)
	solverStats.Lock()
	r.Calls, r.Secs = solverStats.calls, solverStats.secs
	solverStats.Unlock()
	return r
}

// allUnitKeys lists the functions whose contract concerns the property,
// including contracts that no longer fit the code.
func (e *Engine) allUnitKeys(sf *SpecFile, prop string) (keys []string) {
	for _, k := range sf.order {
		sp := sf.funcs[k]
		if sp == nil || sp.trusted || sp.noverify {
			continue
		}
		if specConcerns(sp, prop) {
			keys = append(keys, k)
		}
	}
	return
}

// heavy units first, so that they do not end up last
var heavy = map[string]int{
	"kfparser.ParseKF": 60, "schema.(*ContextValidator).VisitSchema": 50, "kfparser.(*KFVisitor).VisitSource_unit": 45,
	"schema.(*ContextValidator).visitActions": 40, "kfgrammar.(*KuneiformParser).fn_arg_expr": 60, "kfgrammar.(*KuneiformParser).Foreign_key_def": 50, "kfgrammar.(*KuneiformParser).Source_unit": 40, "kfparser.(*KFVisitor).VisitAction_attr_list": 40, "schema.(*ContextValidator).VisitTable": 20,
}

func isWasmUnit(k string) bool { return strings.HasPrefix(k, "wasm.") || k == "@wasm" }

func cmdCheck(prop, tier string) int {
	t0 := time.Now()
	curProp = prop
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	seed := 1
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = n
	}
	var keys []string
	e := &Engine{}
	specOf := map[string]*FuncSpec{} // the contracts of the group of the property
	for _, g := range []string{"", "rules.spec", "accessors.spec", "progress.spec"} {
		gs := loadSpecs(specDir(), g)
		ks := e.allUnitKeys(gs, prop)
		keys = append(keys, ks...)
		if len(ks) > 0 {
			for k, f := range gs.funcs {
				specOf[k] = f
			}
		}
	}
	for _, x := range extraUnits[prop] {
		keys = append(keys, "@"+x)
	}
	sort.SliceStable(keys, func(i, j int) bool { return heavy[keys[i]] > heavy[keys[j]] })

	// small units share a worker
	var jobs [][]string
	last := -1
	batch := map[string]int{"accessors.spec": 14, "rules.spec": 4, "progress.spec": 4}
	for _, k := range keys {
		if n := batch[specGroup(k)]; n > 0 && heavy[k] == 0 {
			if last < 0 || len(jobs[last]) >= n {
				last = len(jobs)
				jobs = append(jobs, nil)
			}
			jobs[last] = append(jobs[last], k)
			continue
		}
		jobs = append(jobs, []string{k})
	}
	got := make([][]*unitResult, len(jobs))
	var wg sync.WaitGroup
	par := runtime.NumCPU() / 2
	if par < 2 {
		par = 2
	}
	if last >= 0 {
		par = runtime.NumCPU()
	}
	sem := make(chan bool, par)
	self, _ := os.Executable()
	for i, ks := range jobs {
		i, ks := i, ks
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			w := "native"
			if isWasmUnit(ks[0]) {
				w = "wasm"
			}
			cmd := exec.Command(self, append([]string{"worker", prop, w}, ks...)...)
			cmd.Env = append(os.Environ(), "GOVER_TIER="+tier)
			var o, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &o, &er
			err := cmd.Run()
			var rs []*unitResult
			if err == nil {
				err = json.Unmarshal(o.Bytes(), &rs)
			}
			if err != nil || len(rs) != len(ks) {
				rs = nil
				for _, k := range ks {
					rs = append(rs, &unitResult{Key: k, Status: "unsupported", Msg: "the verifier stopped: " + trunc(strings.TrimSpace(er.String()), 400)})
				}
			}
			got[i] = rs
		}()
	}
	wg.Wait()
	proofWall := time.Since(t0).Seconds()
	var res []*unitResult
	for _, rs := range got {
		res = append(res, rs...)
	}

	var failed []string
	var failures []failure
	var bounded, proved []string
	var hints []string
	nObl, nOK := 0, 0
	bySolver := map[string]int{}
	calls := map[string]int{}
	secs := map[string]float64{}
	notes, inlined, contracts, accessors := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var perUnit []any
	for _, r := range res {
		n, ok := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Status == "proved" {
				ok++
				bySolver[o.Solver]++
			} else {
				failures = append(failures, failure{r.Key, o})
			}
		}
		nObl += n
		nOK += ok
		hints = append(hints, r.Hints...)
		for _, x := range r.Notes {
			notes[x] = true
		}
		for _, x := range r.Inlined {
			inlined[x] = true
		}
		for _, x := range r.Contracts {
			contracts[x] = true
		}
		for _, x := range r.Accessors {
			accessors[x] = true
		}
		for k, v := range r.Calls {
			calls[k] += v
		}
		for k, v := range r.Secs {
			secs[k] += v
		}
		switch r.Status {
		case "ok":
			if n == ok {
				proved = append(proved, r.Key)
			} else {
				failed = append(failed, r.Key)
			}
		default:
			bounded = append(bounded, r.Key+": "+r.Status+" ("+r.Msg+")")
		}
		perUnit = append(perUnit, map[string]any{"function": r.Key, "contract": r.File, "status": r.Status, "obligations": n, "discharged": ok, "paths": r.Paths, "wall_s": round(r.Wall)})
	}

	// search for an input of the real code that breaks the property: as the
	// counterexample of a failed obligation, and as the bounded stand-in for
	// whatever is outside the verifier's reach
	budget := 12
	if tier == "thorough" {
		budget = 240
	}
	if len(failures) > 0 || len(bounded) > 0 {
		budget = 90
		if tier == "thorough" {
			budget = 400
		}
	}
	rep := runReplay(verif, prop, tier, seed, budget, hints)
	known := loadKnown(verif, prop)

	viol := 0
	stopOnFirst := func(path, tail string) {
		viol++
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	}
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0755)
	if rep.Err != "" {
		fmt.Println("note: replay driver:", rep.Err)
	}
	var found []finding
	for _, f := range rep.Findings {
		if k := knownMatch(known, f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		found = append(found, f)
	}
	if len(found) > 0 {
		p := filepath.Join(verif, "evidence", "replay", prop+".json")
		writeJSON(p, map[string]any{"property": prop, "seed": seed, "failing_inputs": found, "failed_obligations": failures,
			"how_to_replay": "cd " + verif + " && tools/replay.sh " + prop + " " + p})
		for _, f := range failures {
			fmt.Printf("failed obligation: %s: %s\n", f.Unit, f.Obl.Name)
		}
		fmt.Printf("failing input: %s\n", trunc(found[0].What, 600))
		stopOnFirst(p, "")
	} else if len(failures) > 0 {
		p := filepath.Join(verif, "evidence", "replay", prop+".json")
		writeJSON(p, map[string]any{"property": prop, "seed": seed, "failed_obligations": failures, "searched_inputs": rep.Evaluations})
		for _, f := range failures {
			fmt.Printf("failed obligation: %s: %s [%s] %v\n", f.Unit, f.Obl.Name, f.Obl.Status, f.Obl.Trace)
		}
		stopOnFirst(p, " no-failing-input-found")
	}

	var trusted []string
	for k := range contracts {
		if sp := specOf[k]; sp != nil && sp.trusted {
			trusted = append(trusted, "assumed contract: "+k+": "+sp.why)
		}
	}
	sort.Strings(trusted)
	trusted = append(trusted, "gover (/verif/verifier): SSA semantics and obligation generation", "golang.org/x/tools/go/ssa, go/types", "z3, cvc5 answers of unsat", "axioms of /verif/contracts (grammar shapes, string and error functions)")
	for _, n := range sortedKeys(notes) {
		trusted = append(trusted, n)
	}
	var callees []string
	for k := range contracts {
		if sp := specOf[k]; sp != nil && !sp.trusted {
			callees = append(callees, k)
		}
	}
	sort.Strings(callees)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"obligations": nObl, "discharged": nOK,
			"checker_cmd":              "/verif/tools/check.sh " + prop + " " + tier,
			"trusted_base":             trusted,
			"functions_under_contract": perUnit,
			"functions_proved":         len(proved),
			"functions_inlined":        sortedKeys(inlined),
			"accessors_modelled":       sortedKeys(accessors),
			"callee_contracts_used":    callees,
			"bounded_stand_ins":        bounded,
			"discharged_by":            bySolver,
			"solver_calls":             calls,
			"solver_seconds":           secs,
			"proof_wall_s":             round(proofWall),
			"bounded_replay":           map[string]any{"evaluations": rep.Evaluations, "distinct_nontrivial": rep.Distinct, "rule": rep.Rule, "samples": rep.Samples, "seconds": rep.Seconds, "note": "bounded supplement and counterexample search; not counted as proved"},
			"failed_obligations":       failures,
		},
	}
	if nObl == 0 {
		ev["level"] = "other"
		ev["coverage"].(map[string]any)["explanation"] = "no function of this property could be brought under its contract in this tree; only the bounded stand-in ran"
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	for _, b := range bounded {
		fmt.Println("bounded stand-in for", b)
	}
	fmt.Printf("%s: %d functions under contract, %d of %d obligations discharged, %d inputs replayed, %.0f s\n", prop, len(res), nOK, nObl, rep.Evaluations, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

type failure struct {
	Unit string
	Obl  oblJSON
}

type finding struct {
	ID    string // stable identity of what fails (for known findings)
	What  string
	Input string
}

type replayResult struct {
	Evaluations, Distinct int
	Rule                  string
	Samples               []string
	Findings              []finding
	Seconds               float64
	Err                   string
}

// runReplay runs the concrete driver of the property against the real code.
func runReplay(verif, prop, tier string, seed, budget int, hints []string) replayResult {
	var r replayResult
	cmd := exec.Command(filepath.Join(verif, "tools", "replay.sh"), prop, "--seed", strconv.Itoa(seed), "--seconds", strconv.Itoa(budget))
	var o, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &er
	cmd.Env = os.Environ()
	if len(hints) > 0 {
		cmd.Env = append(cmd.Env, "KF_HINT="+strings.ReplaceAll(strings.Join(hints, "\x01"), "\x00", " "))
	}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		r.Err = err.Error()
		return r
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		out := o.Bytes()
		if i := bytes.LastIndex(out, []byte("\nRESULT ")); i >= 0 {
			if e2 := json.Unmarshal(bytes.TrimSpace(out[i+8:]), &r); e2 != nil {
				r.Err = e2.Error()
			}
			return r
		}
		r.Err = fmt.Sprint("no result: ", err, " ", tail(er.String(), 600), tail(string(out), 300))
	case <-time.After(time.Duration(budget+150) * time.Second):
		cmd.Process.Kill()
		r.Err = "timed out"
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type knownEntry struct {
	prop, id, what string
	re             *regexp.Regexp
}

// loadKnown reads /verif/known-findings: "known: property=<id> id=<finding id> <what fails>".
func loadKnown(verif, prop string) (out []knownEntry) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+prop+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "id=") {
			out = append(out, knownEntry{prop: prop, id: strings.TrimPrefix(f[0], "id="), what: f[1]})
		}
	}
	return
}

func knownMatch(ks []knownEntry, f finding) string {
	for _, k := range ks {
		if f.ID != "" && f.ID == k.id {
			return k.what
		}
	}
	return ""
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func writeJSON(p string, v any) {
	var b bytes.Buffer
	en := json.NewEncoder(&b)
	en.SetEscapeHTML(false)
	en.SetIndent("", " ")
	if err := en.Encode(v); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	os.WriteFile(p, b.Bytes(), 0644)
}

var assumptions = []string{
	"machine integers are treated as mathematical integers (lengths and indexes only; no arithmetic near the limits occurs in the functions under contract)",
	"interface values never hold typed nil pointers",
	"slices passed between functions are not modified by the receiver unless its contract says so (checked where the function is under contract)",
	"no other goroutine writes the objects of a call while it runs",
	"case folding is treated as ASCII lower-casing",
	"memory exhaustion and stack overflow do not occur",
}

// extra units: obligations generated from declarations instead of bodies
