package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type globInfo struct {
	kind    string // sentinel, const, romap, zero, unknown
	why     string
	val     Val
	msg     string
	ref     *Term
	keys    []*ssa.Const
	vals    []*ssa.Const
	written bool // outside the package initialiser
}

// analyseGlobals finds package-level variables whose value is fixed by the
// package initialiser: never stored to elsewhere, address never taken, and for
// maps never updated.
func (e *Engine) analyseGlobals() {
	type use struct {
		stores []*ssa.Store
		loads  []*ssa.UnOp
		escape bool
	}
	uses := map[*ssa.Global]*use{}
	get := func(g *ssa.Global) *use {
		u := uses[g]
		if u == nil {
			u = &use{}
			uses[g] = u
		}
		return u
	}
	for _, fn := range e.allFns {
		if !e.isRepoFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					u := get(g)
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g && x.Val != ssa.Value(g) {
							u.stores = append(u.stores, x)
							continue
						}
						u.escape = true
					case *ssa.UnOp:
						if x.Op == token.MUL {
							u.loads = append(u.loads, x)
							continue
						}
						u.escape = true
					case *ssa.DebugRef:
					default:
						u.escape = true
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for _, p := range e.repoSSA {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	neg := int64(0)
	for _, g := range gs {
		gi := &globInfo{kind: "unknown"}
		e.roGlobals[g] = gi
		u := uses[g]
		t := g.Type().(*types.Pointer).Elem()
		if u == nil {
			gi.kind = "zero"
			continue
		}
		var initStore *ssa.Store
		bad := u.escape
		for _, s := range u.stores {
			f := s.Parent()
			if f.Name() == "init" && f.Synthetic != "" && initStore == nil {
				initStore = s
				continue
			}
			gi.written = true
			bad = true
		}
		if bad {
			gi.why = "written or address taken outside the initialiser"
			continue
		}
		if initStore == nil {
			gi.kind = "zero"
			if _, isMap := t.Underlying().(*types.Map); isMap {
				gi.kind = "zero"
			}
			continue
		}
		switch v := initStore.Val.(type) {
		case *ssa.Const:
			gi.kind = "const"
			gi.val = v
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
				if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
					neg++
					gi.kind = "sentinel"
					gi.msg = constTermStr(c)
					gi.ref = tInt(-neg)
				}
			}
			if s, ok := regexConst(v); ok {
				gi.kind, gi.msg = "regex", s
			}
		case *ssa.MakeMap:
			ok := true
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					ok = ok && x == initStore
				case *ssa.MapUpdate:
					k, ok1 := x.Key.(*ssa.Const)
					w, ok2 := x.Value.(*ssa.Const)
					if !ok1 || !ok2 || x.Map != ssa.Value(v) {
						ok = false
						continue
					}
					gi.keys = append(gi.keys, k)
					gi.vals = append(gi.vals, w)
				case *ssa.DebugRef:
				default:
					ok = false
				}
			}
			for _, l := range u.loads {
				for _, r := range *l.Referrers() {
					switch x := r.(type) {
					case *ssa.Lookup:
						ok = ok && x.X == ssa.Value(l)
					case *ssa.DebugRef, *ssa.Range:
					case *ssa.Call:
						b, isB := x.Call.Value.(*ssa.Builtin)
						ok = ok && isB && b.Name() == "len"
					default:
						ok = false
					}
				}
			}
			if ok {
				neg++
				gi.kind = "romap"
				gi.ref = tInt(-neg)
			} else {
				gi.why = "the map may be changed or shared after initialisation"
			}
		}
	}
}

func constTermStr(c *ssa.Const) string {
	if t := constTerm(c.Value, c.Type()); t != nil {
		return litOf[t]
	}
	return ""
}

// globalInit is the content of a package-level variable at function entry.
func (e *Engine) globalInit(st *State, o *Obj) Val {
	gi := e.roGlobals[o.global]
	t := o.t
	if o.global.Name() == "init$guard" {
		return tFalse // package initialisers run once
	}
	if gi == nil {
		// variable of another package: unknown but fixed name
		return e.namedVal(st, "gv."+mangle(o.name), t)
	}
	switch gi.kind {
	case "zero":
		return zeroVal(t)
	case "const":
		return constVal(gi.val.(*ssa.Const))
	case "sentinel":
		s := tMkIface(e.errorStringTag(), gi.ref)
		st.assume(tEq(errMsg(s), strLit(gi.msg)))
		return s
	case "regex":
		r := e.namedVal(st, "gv."+mangle(o.name), t)
		if x, ok := r.(*Term); ok {
			e.assumeRegex(st, x, gi.msg)
		}
		return r
	case "romap":
		e.romapFacts(st, o, gi)
		return gi.ref
	}
	return e.namedVal(st, "gv."+mangle(o.name), t)
}

func (e *Engine) namedVal(st *State, n string, t types.Type) Val {
	so := sortOf(t)
	declareConst(n, so)
	x := mk(so, n)
	e.assumeWF(st, t, x)
	return x
}

func (e *Engine) errorStringTag() *Term {
	for _, p := range e.typePkgs["errors"] {
		if o := p.Scope().Lookup("errorString"); o != nil {
			return typeTag(types.NewPointer(o.Type()))
		}
	}
	return pseudoTag("errors.errorString")
}

// romapFacts states the content of a read-only map.
func (e *Engine) romapFacts(st *State, o *Obj, gi *globInfo) {
	m := o.t.Underlying().(*types.Map)
	ks, es := sortOf(m.Key()), sortOf(m.Elem())
	d := tConstArr(arrSort(ks, "Bool"), tFalse)
	v := tConstArr(arrSort(ks, es), zeroTerm(m.Elem()))
	for i := range gi.keys {
		k := constTerm(gi.keys[i].Value, gi.keys[i].Type())
		d = tStore(d, k, tTrue)
		w := zeroTerm(m.Elem())
		if gi.vals[i].Value != nil {
			w = constTerm(gi.vals[i].Value, gi.vals[i].Type())
		}
		v = tStore(v, k, w)
	}
	st.assume(tEq(e.mapDom(st, m, gi.ref), d))
	st.assume(tEq(e.mapVal(st, m, gi.ref), v))
}

func (e *Engine) noteGlobalWrite(o *Obj) { e.wroteGlob[o.name] = true }

// effects -----------------------------------------------------------------------------

// effect lists what one function does to state outside its own objects, as
// far as it can be read off its instructions (no calls followed).
type effect struct {
	globals []string // package-level variables written
	nondet  []string // sources of nondeterminism
	globPos map[string]string
}

// rootGlobal follows address computations back to a package-level variable.
func rootGlobal(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X, seen)
	case *ssa.IndexAddr:
		return rootGlobal(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rootGlobal(x.X, seen)
		}
	case *ssa.Slice:
		return rootGlobal(x.X, seen)
	case *ssa.ChangeType:
		return rootGlobal(x.X, seen)
	case *ssa.Lookup:
		return rootGlobal(x.X, seen)
	case *ssa.Extract:
		return rootGlobal(x.Tuple, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if g := rootGlobal(ed, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

var nondetPkgs = map[string]bool{"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os": true, "net": true, "runtime": true, "syscall": true, "os/exec": true, "unsafe": true}

func (e *Engine) effectOf(fn *ssa.Function) *effect {
	if x, ok := e.effects[fn]; ok {
		return x
	}
	ef := &effect{}
	e.effects[fn] = ef
	addG := func(v ssa.Value, in ssa.Instruction, what string) {
		if g := rootGlobal(v, map[ssa.Value]bool{}); g != nil {
			ef.globals = append(ef.globals, g.Pkg.Pkg.Name()+"."+g.Name()+" "+what+" at "+e.where(in))
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				addG(x.Addr, in, "written")
			case *ssa.MapUpdate:
				addG(x.Map, in, "updated")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					ef.nondet = append(ef.nondet, "iteration over a map at "+e.where(in))
				}
			case *ssa.Go:
				ef.nondet = append(ef.nondet, "go statement at "+e.where(in))
			case *ssa.Select:
				ef.nondet = append(ef.nondet, "select statement at "+e.where(in))
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
					addG(cc.Args[0], in, b.Name())
				}
				if f := cc.StaticCallee(); f != nil {
					var path string
					if f.Pkg != nil {
						path = f.Pkg.Pkg.Path()
					} else if f.Object() != nil && f.Object().Pkg() != nil {
						path = f.Object().Pkg().Path()
					}
					if nondetPkgs[path] {
						ef.nondet = append(ef.nondet, "call of "+f.String()+" at "+e.where(in))
					}
					// methods and functions given the address of a global
					if !strings.HasSuffix(fn.Name(), "Init") && !strings.HasPrefix(fn.Name(), "init") {
						for _, a := range cc.Args {
							if _, isP := a.Type().Underlying().(*types.Pointer); !isP {
								continue
							}
							if g, ok := addrOfGlobal(a); ok && f.String() != "(*sync.Once).Do" {
								if f.Pkg == nil || !e.isRepoFn(f) {
									if !readOnlyMethod(f) {
										ef.globals = append(ef.globals, g.Pkg.Pkg.Name()+"."+g.Name()+" passed to "+f.String()+" at "+e.where(in))
									}
								} else {
									ef.globals = append(ef.globals, g.Pkg.Pkg.Name()+"."+g.Name()+" passed by address at "+e.where(in))
								}
							}
						}
					}
				}
			}
		}
	}
	return ef
}

// addrOfGlobal: the value is the address of (a part of) a global itself, not a
// pointer stored in one.
func addrOfGlobal(v ssa.Value) (*ssa.Global, bool) {
	switch x := v.(type) {
	case *ssa.Global:
		return x, true
	case *ssa.FieldAddr:
		return addrOfGlobal(x.X)
	case *ssa.IndexAddr:
		return addrOfGlobal(x.X)
	}
	return nil, false
}

func readOnlyMethod(f *ssa.Function) bool {
	switch f.String() {
	case "(*sync.Once).Do":
		return true
	}
	return false
}

// reachable lists the repository functions reachable from the roots through
// static calls, closures and calls of repository-implemented interface methods.
func (e *Engine) reachable(roots []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		if e.isRepoFn(f) {
			order = append(order, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
					for _, t := range e.concreteImpls(it) {
						visit(e.prog.LookupMethod(t, c.Common().Method.Pkg(), c.Common().Method.Name()))
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	return order
}

func (e *Engine) concreteImpls(it *types.Interface) []types.Type {
	if it == nil {
		return nil
	}
	if r, ok := e.implCache[it]; ok {
		return r
	}
	var out []types.Type
	for _, p := range e.repoSSA {
		sc := p.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	e.implCache[it] = out
	return out
}

func sortStrings(s []string) { sort.Strings(s) }
