package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func repoDir() string {
	if d := os.Getenv("GOVER_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// load builds SSA for the repository's packages from its current source.
func load(wasm bool) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedImports | packages.NeedDeps | packages.NeedModule,
		Dir:  repoDir(),
	}
	env := os.Environ()
	pats := []string{"./..."}
	wasmMode = wasm
	if wasm {
		env = append(env, "GOOS=js", "GOARCH=wasm")
		pats = []string{"./wasm", "./kfparser", "./schema", "./utils", "./kfgrammar"}
	}
	cfg.Env = env
	// dependencies come from export data: only the listed packages are parsed
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, er.Msg)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{
		prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]*Obj{}, shiftDone: map[string]bool{},
		inlined: map[string]bool{}, externs: map[string]bool{}, frameInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		tableMemo: map[*ssa.Alloc]string{}, roGlobals: map[*ssa.Global]*globInfo{}, wroteGlob: map[string]bool{}, notes: map[string]bool{},
		implCache: map[*types.Interface][]types.Type{}, loopInv: map[string]int{},
		typeCache: map[string]types.Type{}, typePkgs: map[string][]*types.Package{}, specMissing: map[string]string{},
		accessorsUsed: map[string]bool{}, errTerms: map[*Term]bool{}, contractsUsed: map[string]bool{}, effects: map[*ssa.Function]*effect{},
		treeMode: true,
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if strings.HasSuffix(pkgs[i].ID, ".test") || strings.Contains(pkgs[i].ID, " [") {
			continue
		}
		e.repoSSA = append(e.repoSSA, sp)
		repoPkgs[sp.Pkg] = true
		if _, dup := e.pkgs[sp.Pkg.Name()]; !dup {
			e.pkgs[sp.Pkg.Name()] = sp
		}
	}
	sort.Slice(e.repoSSA, func(i, j int) bool { return e.repoSSA[i].Pkg.Path() < e.repoSSA[j].Pkg.Path() })
	for _, sp := range e.repoSSA {
		e.typePkgs[sp.Pkg.Name()] = append(e.typePkgs[sp.Pkg.Name()], sp.Pkg)
	}
	seen := map[*types.Package]bool{}
	var add func(p *types.Package, depth int)
	add = func(p *types.Package, depth int) {
		for _, im := range p.Imports() {
			if seen[im] {
				continue
			}
			seen[im] = true
			if !repoPkgs[im] {
				e.typePkgs[im.Name()] = append(e.typePkgs[im.Name()], im)
			}
		}
		for _, im := range p.Imports() {
			if depth < 4 {
				add(im, depth+1)
			}
		}
	}
	for _, sp := range e.repoSSA {
		add(sp.Pkg, 0)
	}
	for fn := range ssautil.AllFunctions(prog) {
		e.allFns = append(e.allFns, fn)
	}
	// methods and closures of repository packages that nothing references
	sort.Slice(e.allFns, func(i, j int) bool { return e.allFns[i].String() < e.allFns[j].String() })
	e.fnByKey = map[string]*ssa.Function{}
	e.sigByKey = map[string]*types.Signature{}
	for _, fn := range e.allFns {
		if k := funcKey(fn); e.sigByKey[k] == nil {
			e.sigByKey[k] = fn.Signature
		}
		if e.isRepoFn(fn) && fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "package init") {
			k := funcKey(fn)
			if _, dup := e.fnByKey[k]; !dup {
				e.fnByKey[k] = fn
			}
		}
	}
	initSorts()
	initStringAxioms()
	initErrAxioms()
	e.entryPoints()
	e.analyseGlobals()
	return e, nil
}

func (e *Engine) newState() *State {
	declareConst("alloc0", "Int")
	st := &State{objs: map[int]Val{}, fwd: map[int]*Term{}, heap: map[string]*Term{}, ghost: map[string]*Term{}, factSet: map[*Term]bool{}, nonnil: map[*Term]bool{}, frozen: map[int]bool{}, alloc: mk("Int", "alloc0")}
	st.assume(tLt(tInt(0), st.alloc))
	return st
}

// useSpecs attaches contracts, dropping those that do not fit the code.
func (e *Engine) useSpecs(dir, group string) {
	e.specs = loadSpecs(dir, group)
	// the error values of the standard library never wrap anything
	x, d := boundVarN(sIface, "x.es"), boundVarN("Int", "d.es")
	t := errIs(tMkIface(e.errorStringTag(), d), x)
	addAxiom("errorString", mkBinder("forall", []*Term{x, d}, tEq(t, tEq(tMkIface(e.errorStringTag(), d), x)), [][]*Term{{t}}), "errIs")
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	addAxiom("errorStringImpl", implOf(e.errorStringTag(), "error", errT), "impl.error")
	e.loadAxioms()
	for _, k := range e.specs.order {
		sp := e.specs.funcs[k]
		if sp.trusted {
			continue
		}
		fn := e.fnByKey[k]
		if fn == nil {
			e.specMissing[k] = "no such function"
			delete(e.specs.funcs, k)
			continue
		}
		if len(fn.Params) != len(sp.params) {
			e.specMissing[k] = fmt.Sprintf("contract names %d parameters, the function has %d", len(sp.params), len(fn.Params))
			delete(e.specs.funcs, k)
			continue
		}
		if msg := e.tryResolve(fn, sp); msg != "" {
			e.specMissing[k] = msg
			delete(e.specs.funcs, k)
		}
	}
}

// tryResolve evaluates every clause of a contract once to see that the names
// it mentions exist.
func (e *Engine) tryResolve(fn *ssa.Function, sp *FuncSpec) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				msg = x.msg
				return
			case unsupported:
				msg = x.msg
				return
			}
			panic(r)
		}
	}()
	m := e.mute
	e.mute = true
	defer func() { e.mute = m }()
	st := e.newState()
	en := &env{e: e, st: st, old: st, vars: map[string]sval{}, spec: sp}
	for i, p := range sp.params {
		en.vars[p] = sval{e.symVal(st, fn.Params[i].Type(), "tr."+p), fn.Params[i].Type()}
	}
	for _, l := range sp.lets {
		en.vars[l.name] = e.eval(en, l.x)
	}
	for _, c := range sp.requires {
		e.evalBool(en, c.x)
	}
	for _, x := range sp.modifies {
		e.lvals(en, x)
	}
	pe := *en
	rts := fn.Signature.Results()
	if len(sp.results) > rts.Len() {
		serr("contract names %d results, the function has %d", len(sp.results), rts.Len())
	}
	for i := range sp.results {
		en = en.with(sp.results[i], sval{e.resultVal(st, fn, sp, i, rts.At(i).Type()), rts.At(i).Type()})
	}
	for _, c := range sp.ensures {
		e.evalBool(en, c.x)
	}
	p2 := (&pe).with("panicval", sval{fresh(sIface, "pv"), anyType})
	for _, c := range sp.exsures {
		e.evalBool(p2, c.x)
	}
	for _, c := range sp.parks {
		e.evalBool(&pe, c.x)
	}
	p3 := (&pe).with("code", sval{tInt(0), types.Typ[types.Int]})
	for _, c := range sp.exits {
		e.evalBool(p3, c.x)
	}
	for _, r := range sp.reveal {
		e.revealFact(r)
	}
	return ""
}

// verifyUnit generates the obligations of one function.  When there are too
// many paths, those that meet at a loop are joined.
func (e *Engine) verifyUnit(fn *ssa.Function, sp *FuncSpec) error {
	n, p := len(e.obls), e.paths
	err := e.verifyPaths(fn, sp, sp.join)
	if err != nil && strings.Contains(err.Error(), "paths") && !sp.join {
		saved := e.obls[n:]
		e.obls, e.paths = e.obls[:n:n], p
		if err2 := e.verifyPaths(fn, sp, true); err2 == nil {
			return nil
		}
		e.obls = append(e.obls[:n:n], saved...)
	}
	return err
}

func (e *Engine) verifyPaths(fn *ssa.Function, sp *FuncSpec, join bool) (err error) {
	e.joining, e.pending = join, nil
	defer func() { e.joining, e.pending = false, nil }()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("outside the supported subset: %s", x.msg)
				return
			case specErr:
				err = fmt.Errorf("contract does not apply: %s", x.msg)
				return
			}
			panic(r)
		}
	}()
	e.mute, e.rec, e.collect, e.callStack = false, nil, nil, nil
	st := e.newState()
	u := &Unit{fn: fn, spec: sp, name: sp.key, lets: map[string]sval{}}
	e.cur = u
	e.treeMode = !(fn.Pkg != nil && fn.Pkg.Pkg.Name() == "kfgrammar")
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(sp.params) {
			nm = sp.params[i]
		}
		u.params = append(u.params, e.symVal(st, p.Type(), nm))
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		t := fv.Type().(*types.Pointer).Elem()
		o := newObj(fv.Name(), t)
		st.objs[o.id] = e.symVal(st, t, fv.Name())
		binds = append(binds, &PtrVal{obj: o, elem: t})
	}
	u.pre = st
	en := e.unitEnv(st)
	for _, l := range sp.lets {
		v := e.eval(en, l.x)
		en.vars[l.name] = v
		u.lets[l.name] = v
	}
	for _, c := range sp.requires {
		st.assume(e.evalBool(en, c.x))
	}
	for _, r := range sp.reveal {
		st.assume(e.revealFact(r))
	}
	u.nFacts = len(st.facts)
	u.alloc0 = st.alloc
	u.pre = st.clone()
	fr := &Frame{fn: fn, locals: map[ssa.Value]Val{}, binds: binds, loops: map[*ssa.BasicBlock]*activeLoop{}, top: true}
	for i, p := range fn.Params {
		fr.locals[p] = u.params[i]
	}
	e.run(fr, fn.Blocks[0], nil, st, Cont{
		ret: func(st *State, res []Val) { e.atReturn(st, res) },
		pan: func(st *State, v Val) { e.atPanic(st, v) },
	})
	e.runPending()
	return nil
}

func (e *Engine) atReturn(st *State, res []Val) {
	if st.cut || e.mute || e.rec != nil {
		return
	}
	u := e.cur
	sp := u.spec
	u.hadReturn = true
	u.returns = append(u.returns, st.facts)
	en := e.unitEnv(st)
	rts := u.fn.Signature.Results()
	for i, r := range sp.results {
		v := res[i]
		rt := rts.At(i).Type()
		if sh := sp.shape[r]; sh != "" {
			want := e.resolveType(sh)
			v = e.checkShape(st, v, rt, want, r)
		}
		en.vars[r] = sval{v, rt}
	}
	for _, c := range sp.ensures {
		e.oblig(st, e.evalBool(en, c.x), "postcondition: "+c.src, "post", c.props)
	}
	e.checkFrame(st, en)
}

// checkShape: the result has the promised dynamic type and, for pointers,
// designates an object nobody else refers to.
func (e *Engine) checkShape(st *State, v Val, rt, want types.Type, name string) Val {
	props := e.cur.allProps()
	inner := v
	if _, ok := rt.Underlying().(*types.Interface); ok {
		ok, iv := e.assertTo(st, v, rt, want)
		e.oblig(st, ok, "result "+name+" has dynamic type "+typeName(want), "post", props)
		st.assume(ok)
		inner = iv
		v = &IfaceVal{dyn: want, val: inner}
	}
	if _, isP := want.Underlying().(*types.Pointer); isP {
		fresh := false
		switch p := inner.(type) {
		case *PtrVal:
			_, pub := st.fwd[p.obj.id]
			fresh = len(p.path) == 0 && p.obj.global == nil && !pub
		}
		if !fresh {
			unsup("result %s is not evidently a fresh object", name)
		}
	}
	return v
}

func (e *Engine) checkFrame(st *State, en *env) {
	u := e.cur
	allowed := map[string]map[*Term]bool{}
	ghostOK := map[string]bool{}
	pre := *en
	pre.st = u.pre.clone()
	for _, x := range u.spec.modifies {
		for _, l := range e.lvals(&pre, x) {
			if l.glob != "" {
				ghostOK[l.glob] = true
				continue
			}
			if l.obj != nil && l.obj.global != nil {
				ghostOK["global "+l.obj.name] = true
			}
			for _, h := range l.heap {
				if allowed[h] == nil {
					allowed[h] = map[*Term]bool{}
				}
				allowed[h][l.ref] = true
			}
		}
	}
	props := u.spec.frame
	if props == nil {
		props = u.allProps()
	}
	var hs []string
	for h := range st.heap {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		now := st.heap[h]
		was := e.initHeap(h, now.sort)
		if now == was || allowed[h][nil] {
			continue
		}
		r := boundVarN("Int", "r.frame")
		c := []*Term{tLt(tInt(0), r), tLt(r, u.alloc0)}
		var ts []*Term
		for t := range allowed[h] {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			c = append(c, tNot(tEq(r, t)))
		}
		e.oblig(st, mkBinder("forall", []*Term{r}, tImp(tAnd(c...), tEq(tSelect(now, r), tSelect(was, r))), nil), "writes only what it may modify ("+h+")", "frame", props)
	}
	for g, t := range st.ghost {
		if strings.HasPrefix(g, "loop:") || ghostOK[g] {
			continue
		}
		n := "@ghost." + g
		if t.op != n {
			e.oblig(st, tEq(t, mk(t.sort, n)), "ghost "+g+" is unchanged", "frame", props)
		}
	}
}

func (e *Engine) atPanic(st *State, v Val) {
	if st.cut || e.mute || e.rec != nil {
		return
	}
	u := e.cur
	if len(u.spec.exsures) == 0 {
		p := u.spec.noPanic
		if p == nil {
			p = u.spec.safety
		}
		if p == nil {
			p = u.allProps()
		}
		e.oblig(st, tFalse, "does not panic", "panic", p)
		return
	}
	en := e.unitEnv(st)
	en.vars["panicval"] = sval{e.toTerm(st, v, anyType), anyType}
	for _, c := range u.spec.exsures {
		e.oblig(st, e.evalBool(en, c.x), "exceptional postcondition: "+c.src, "expost", c.props)
	}
	e.checkFrame(st, en)
}

// solve discharges the obligations carrying one of the wanted properties.
func (e *Engine) solve(want map[string]bool) {
	var wg sync.WaitGroup
	var open atomic.Int32
	sem := make(chan bool, solverPar)
	for _, o := range e.obls {
		if o.status != "" {
			continue
		}
		use := want == nil
		for _, p := range o.props {
			use = use || want[p]
		}
		if !use {
			o.status = "skipped"
			continue
		}
		o.script = buildScript(withLits(o.facts, o.goal), o.goal, "")
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			// many failures: a first look at the rest
			o.status, o.solver, o.output, o.secs = prove(o.script, open.Load() >= 6)
			if o.status != "proved" {
				open.Add(1)
			}
			if o.status != "proved" && os.Getenv("GOVER_KEEP") != "" {
				os.WriteFile(os.Getenv("GOVER_KEEP"), []byte(o.script), 0644)
			}
			o.script = ""
		}()
	}
	wg.Wait()
	// whatever was not settled gets another, longer attempt by itself, until
	// the function is known not to meet its contract
	for _, o := range e.obls {
		if o.status == "failed" {
			return
		}
	}
	for _, o := range e.obls {
		if o.status != "unknown" {
			continue
		}
		st, sv, out, secs := proveFor(buildScript(withLits(o.facts, o.goal), o.goal, ""), 20*time.Second)
		o.secs += secs
		if st == "proved" {
			o.status, o.solver = st, sv
		} else {
			o.output += out
			return
		}
	}
}

// vacuous reports whether every way to return was shown impossible, that is,
// whether the contract's assumptions contradict each other.
func (e *Engine) vacuous(u *Unit) bool {
	if len(u.returns) == 0 {
		return false
	}
	n := len(u.returns)
	for try := 0; try < n; try++ {
		fs := u.returns[n-1-try]
		if try > 40 {
			return false
		}
		st, _, _, _ := prove(buildScript(withLits(fs, tFalse), tFalse, ""), true)
		if st != "proved" {
			return false
		}
	}
	return true
}
