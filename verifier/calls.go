package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 14

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction, isDefer bool, k Cont) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(fr, st, b, c, args, in, k)
		return
	}
	if c.IsInvoke() {
		e.invoke(fr, st, c, fv, args, in, isDefer, k)
		return
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		e.callFn(fr, st, fn, nil, args, isDefer, k)
		return
	}
	switch f := fv.(type) {
	case *FuncVal:
		e.callFn(fr, st, f.fn, f.binds, args, isDefer, k)
		return
	case *Term:
		e.checkNonNil(st, f, "call of nil function")
		e.note("call of an unknown function value: result unconstrained")
		e.unknownResult(st, c.Signature(), "dyn", args, k)
		return
	}
	unsup("call of %T", fv)
}

func (e *Engine) note(s string) { e.notes[s] = true }

func (e *Engine) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv Val, args []Val, in ssa.Instruction, isDefer bool, k Cont) {
	it := c.Value.Type()
	m := c.Method
	if t, ok := recv.(*Term); ok {
		// known tag?
		if n, ok := intLit(tTag(t)); ok {
			for tt, ty := range tagTypes {
				if x, _ := intLit(tt); x == n {
					recv = &IfaceVal{dyn: ty, val: unboxData(ty, tData(t))}
				}
			}
		}
	}
	if t, ok := recv.(*Term); ok {
		for tt, ty := range tagTypes {
			if st.factSet[tEq(tTag(t), tt)] {
				d := unboxData(ty, tData(t))
				if _, isP := ty.Underlying().(*types.Pointer); isP {
					st.nonnil[d] = true
				}
				recv = &IfaceVal{dyn: ty, val: d}
			}
		}
	}
	if t, ok := recv.(*Term); ok {
		g := tNot(tEq(tTag(t), tInt(0)))
		if st.decide(g) != tTrue {
			e.safety(st, g, "method call on nil interface")
			st.assume(g)
		}
		if r, ok := e.ifaceIntrinsic(fr, st, it, m, t, args, k); ok {
			_ = r
			return
		}
		if n, ok := types.Unalias(it).(*types.Named); ok && isRepoType(it) {
			impl := e.implementers(n)
			if len(impl) == 1 {
				dyn := impl[0]
				st.assume(tEq(tTag(t), typeTag(dyn)))
				d := unboxData(dyn, tData(t))
				if _, isP := dyn.Underlying().(*types.Pointer); isP {
					st.nonnil[d] = true
				}
				recv = &IfaceVal{dyn: dyn, val: d}
			}
		}
	}
	if iv, ok := recv.(*IfaceVal); ok {
		fn := e.prog.LookupMethod(iv.dyn, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %s", m.Name(), iv.dyn)
		}
		e.callFn(fr, st, fn, nil, append([]Val{iv.val}, args...), isDefer, k)
		return
	}
	key := "iface " + typeName(it) + "." + m.Name()
	if e.observed(key) {
		sig := m.Type().(*types.Signature)
		k = e.observeCall(st, key, append([]Val{recv}, args...), append([]types.Type{it}, sigTypes(sig)...), sig, k)
	}
	if sp := e.specs.funcs[key]; sp != nil {
		e.applySpec(fr, st, nil, sp, m.Type().(*types.Signature), append([]Val{recv}, args...), append([]types.Type{it}, sigTypes(m.Type().(*types.Signature))...), k)
		return
	}
	e.note("interface method without contract: " + key + " (result unconstrained, assumed not to touch this package's state)")
	e.unknownResult(st, m.Type().(*types.Signature), m.Name(), args, k)
}

func sigTypes(s *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		r = append(r, s.Params().At(i).Type())
	}
	return r
}

// implementers lists the concrete repository types implementing a repository
// interface (closed world: the interface has unexported or marker methods, or
// no other package of this module defines one).
func (e *Engine) implementers(n *types.Named) []types.Type {
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if r, ok := e.implCache[it]; ok {
		return r
	}
	var out []types.Type
	for p := range repoPkgs {
		sc := p.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	e.implCache[it] = out
	return out
}

func (e *Engine) unknownResult(st *State, sig *types.Signature, name string, args []Val, k Cont) {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.symVal(st, sig.Results().At(i).Type(), "ext."+name))
	}
	k.ret(st, res)
}

func funcKey(fn *ssa.Function) string {
	// "pkg.Func", "pkg.(*T).M", "pkg.T.M"
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + fn.Name()[strings.LastIndexByte(fn.Name(), '$')+1:]
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				return n.Obj().Pkg().Name() + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return pk + n.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return pkgKey(fn.Pkg.Pkg) + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	return fn.String()
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return repoPkgs[fn.Object().Pkg()]
	}
	if p == nil {
		if fn.Parent() != nil {
			return e.isRepoFn(fn.Parent())
		}
		return false
	}
	return repoPkgs[p.Pkg]
}

func (e *Engine) callFn(fr *Frame, st *State, fn *ssa.Function, binds []Val, args []Val, isDefer bool, k Cont) {
	key := funcKey(fn)
	isWrapper := fn.Synthetic != "" && fn.Pkg == nil
	if isPkgInit(fn) && fr != nil && fr.fn.Pkg != fn.Pkg {
		k.ret(st, nil) // another package
		return
	}
	if key == "os.Exit" {
		e.atExit(st, args[0])
		return
	}
	if key == "sync.(*Once).Do" && e.onceOf(args) {
		// done now, or done before with the same outcome
		f := args[1].(*FuncVal)
		e.callFn(fr, st, f.fn, f.binds, nil, false, k)
		return
	}
	if !isWrapper && e.observed(key) {
		k = e.observeCall(st, key, args, paramTypes(fn), fn.Signature, k)
	}
	if !isWrapper {
		if e.nodeIntrinsic(fr, st, fn, key, args, k) {
			return
		}
	}
	if sp := e.specs.funcs[key]; sp != nil && !isWrapper && !sp.inline && len(sp.observe) == 0 {
		if !sp.trusted {
			sp.used = true
		}
		e.applySpec(fr, st, fn, sp, fn.Signature, args, paramTypes(fn), k)
		return
	}
	if h, ok := intrinsics[key]; ok && !e.isRepoFn(fn) {
		h(e, fr, st, fn, args, k)
		return
	}
	if len(fn.Blocks) > 0 && (e.isRepoFn(fn) || isWrapper) {
		if fr != nil && fr.depth > maxInline {
			unsup("inlining too deep at %s", key)
		}
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				unsup("recursive function %s has no contract", key)
			}
		}
		if e.isRepoFn(fn) && fn.Parent() == nil && !isWrapper {
			e.inlined[key] = true
		}
		nf := &Frame{fn: fn, locals: map[ssa.Value]Val{}, binds: binds, loops: map[*ssa.BasicBlock]*activeLoop{}, isDeferred: isDefer, parent: fr}
		if fr != nil {
			nf.depth = fr.depth + 1
		}
		for i, p := range fn.Params {
			nf.locals[p] = args[i]
		}
		e.run(nf, fn.Blocks[0], nil, st, k)
		return
	}
	if e.externs != nil {
		e.externs[key] = true
	}
	if fn.Pkg != nil && purePkgs[fn.Pkg.Pkg.Name()] {
		var ts []*Term
		pt := paramTypes(fn)
		ok := true
		for i, a := range args {
			if _, isFn := a.(*FuncVal); isFn {
				ok = false
				break
			}
			ts = append(ts, e.toTerm(st, a, pt[i]))
		}
		if ok {
			var res []Val
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				rt := fn.Signature.Results().At(i).Type()
				r := app(sortOf(rt), fmt.Sprintf("lib.%s.%d", mangle(key), i), ts...)
				e.assumeWF(st, rt, r)
				res = append(res, r)
			}
			k.ret(st, res)
			return
		}
	}
	e.note("external function without contract: " + key + " (result unconstrained, assumed not to panic or touch this package's state)")
	e.unknownResult(st, fn.Signature, fn.Name(), args, k)
}

func paramTypes(fn *ssa.Function) []types.Type {
	var r []types.Type
	if len(fn.Params) > 0 {
		for _, p := range fn.Params {
			r = append(r, p.Type())
		}
		return r
	}
	if fn.Signature.Recv() != nil {
		r = append(r, fn.Signature.Recv().Type())
	}
	return append(r, sigTypes(fn.Signature)...)
}

// builtins ------------------------------------------------------------------------

func (e *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction, k Cont) {
	one := func(v Val) { k.ret(st, []Val{v}) }
	switch b.Name() {
	case "len":
		one(e.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		n := e.symVal(st, types.Typ[types.Int], "cap").(*Term)
		st.assume(tLe(e.lenOf(st, args[0], c.Args[0].Type()), n))
		one(n)
	case "append":
		one(e.appendTo(st, c, args))
	case "recover":
		if p, ok := st.panicV.(*panicking); ok && !p.recovered && fr.isDeferred {
			st.panicV = &panicking{v: p.v, recovered: true}
			one(p.v)
			return
		}
		one(nilIface())
	case "print", "println":
		k.ret(st, nil)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		r := e.toTerm(st, args[0], c.Args[0].Type())
		key := e.toTerm(st, args[1], m.Key())
		dom, _ := mapHeaps(m)
		e.heapSet(st, dom, r, tStore(e.mapDom(st, m, r), key, tFalse))
		k.ret(st, nil)
	case "ssa:wrapnilchk":
		if t, ok := args[0].(*Term); ok {
			e.checkNonNil(st, t, "nil receiver")
		}
		one(args[0])
	default:
		unsup("builtin %s", b.Name())
	}
}

func (e *Engine) appendTo(st *State, c *ssa.CallCommon, args []Val) Val {
	t := c.Args[0].Type().Underlying().(*types.Slice)
	sliceOf(t.Elem())
	base := e.toTerm(st, args[0], c.Args[0].Type())
	e.assumeWF(st, c.Args[0].Type(), base)
	data, n := tSliceData(base), tSliceLen(base)
	if sortOf(c.Args[1].Type()) == sStr {
		unsup("append of a string")
	}
	switch x := args[1].(type) {
	case *SliceVal:
		if cnt, ok := intLit(x.ln); ok && cnt <= 64 {
			a := st.objs[x.obj.id]
			for i := int64(0); i < cnt; i++ {
				v := e.arrGet(st, a, x.elem, tAdd(x.off, tInt(i)))
				data = tStore(data, tAdd(n, tInt(i)), e.toTerm(st, v, x.elem))
			}
			z := tSliceNil(base)
			if cnt > 0 {
				z = tFalse
			}
			return tSliceMk(t.Elem(), data, tAdd(n, tInt(cnt)), z)
		}
	}
	add := e.toTerm(st, args[1], c.Args[1].Type())
	e.assumeWF(st, c.Args[1].Type(), add)
	if isCtor(add) && tSliceLen(add) == tInt(0) {
		return base
	}
	nd := fresh(data.sort, "appended")
	i := boundVar("Int", "i")
	sel := mk(arrElem(nd.sort), "select", nd, i)
	st.assume(mkBinder("forall", []*Term{i}, tEq(sel, tIte(tLt(i, n), tSelect(data, i), tSelect(tSliceData(add), tSub(i, n)))), [][]*Term{{sel}}))
	return tSliceMk(t.Elem(), nd, tAdd(n, tSliceLen(add)), tAnd(tSliceNil(base), tEq(tSliceLen(add), tInt(0))))
}

// contracts -------------------------------------------------------------------------

func (e *Engine) applySpec(fr *Frame, st *State, fn *ssa.Function, sp *FuncSpec, sig *types.Signature, args []Val, pts []types.Type, k Cont) {
	e.contractsUsed[sp.key] = true
	en := &env{e: e, st: st, vars: map[string]sval{}, spec: sp}
	if len(sp.params) != len(args) {
		unsup("contract of %s names %d parameters, the function has %d", sp.key, len(sp.params), len(args))
	}
	for i, p := range sp.params {
		en.vars[p] = sval{args[i], pts[i]}
	}
	// the callee may reach the objects passed to it
	for i, a := range args {
		if pv, ok := a.(*PtrVal); ok && pv.obj.global == nil && !e.modifiesParam(sp, sp.params[i]) && len(pv.path) == 0 {
			// only read through the pointer: stays local
			continue
		}
	}
	en.old = st.clone()
	for _, l := range sp.lets {
		en.vars[l.name] = e.eval(en, l.x)
	}
	for _, r := range sp.requires {
		g := e.evalBool(en, r.x)
		e.oblig(st, g, "precondition of "+sp.key+": "+r.src, "pre", r.propsOr(e))
		st.assume(g)
	}
	if m := e.cur.spec.measure; m != nil && !sp.trusted && fn != nil && !e.mute && e.comesBack(fn) {
		ev := e.unitEnv(st)
		now := e.eval(ev, m.x)
		was := *ev
		was.st = ev.old
		before := e.eval(&was, m.x)
		e.oblig(st, tLt(before.v.(*Term), now.v.(*Term)), "before the call of "+sp.key+" can come back here, this grows: "+m.src, "variant", m.props)
	}
	// effects
	en.old = st.clone()
	havocFor := func(s *State) {
		e.applyModifies(s, en, sp)
		if !sp.pure {
			a := fresh("Int", "alloc")
			s.assume(tLe(s.alloc, a))
			s.alloc = a
			e.rec.noteAllocAny()
		}
	}
	var ps *State
	if len(sp.exsures) > 0 {
		ps = st.clone()
		e.paths++
	}
	havocFor(st)
	en.st = st
	var res []Val
	rts := sig.Results()
	for i := 0; i < rts.Len(); i++ {
		if i < len(sp.results) && sp.resultIs[sp.results[i]] != nil {
			v := e.eval(en, sp.resultIs[sp.results[i]])
			if _, isI := v.t.Underlying().(*types.Interface); !isI {
				if _, wantI := rts.At(i).Type().Underlying().(*types.Interface); wantI {
					v = sval{&IfaceVal{dyn: types.Unalias(v.t), val: v.v}, rts.At(i).Type()}
				}
			}
			e.assumeWF(st, rts.At(i).Type(), e.toTerm(st, v.v, v.t))
			res = append(res, v.v)
			continue
		}
		res = append(res, e.resultVal(st, fn, sp, i, rts.At(i).Type()))
	}
	for i := range sp.results {
		if i < len(res) {
			en.vars[sp.results[i]] = sval{res[i], rts.At(i).Type()}
		}
	}
	for _, c := range sp.ensures {
		st.assume(e.evalBool(en, c.x))
	}
	if ps == nil {
		k.ret(st, res)
		return
	}
	havocFor(ps)
	pv := fresh(sIface, "panicval")
	pe := *en
	pe.st = ps
	pe.vars = map[string]sval{}
	for n, v := range en.vars {
		pe.vars[n] = v
	}
	for _, r := range sp.results {
		delete(pe.vars, r)
	}
	pe.vars["panicval"] = sval{pv, anyType}
	for _, ex := range sp.exsures {
		ps.assume(e.evalBool(&pe, ex.x))
	}
	ps.assume(tNot(tEq(tTag(pv), tInt(0))))
	ps.trace = append(ps.trace, sp.key+" panics")
	if !st.cut {
		k.ret(st, res)
	}
	if !ps.cut {
		k.pan(ps, pv)
	}
}

func (e *Engine) modifiesParam(sp *FuncSpec, p string) bool {
	for _, m := range sp.modSrc {
		if strings.Contains(m, p) {
			return true
		}
	}
	return false
}

func (r *recorder) noteAllocAny() {
	for ; r != nil; r = r.parent {
		r.allocs = true
	}
}

// resultVal makes the result value of a call under contract.
func (e *Engine) resultVal(st *State, fn *ssa.Function, sp *FuncSpec, i int, rt types.Type) Val {
	if i < len(sp.results) && sp.shape[sp.results[i]] != "" {
		dyn := e.resolveType(sp.shape[sp.results[i]])
		v := e.shapedVal(st, sp, dyn)
		if _, ok := rt.Underlying().(*types.Interface); ok {
			return &IfaceVal{dyn: dyn, val: v}
		}
		return v
	}
	return e.symVal(st, rt, "res."+fnShort(sp.key))
}

// shapedVal: a fresh value; a pointer designates a fresh object nobody else
// refers to (checked when the function itself is verified).
func (e *Engine) shapedVal(st *State, sp *FuncSpec, dyn types.Type) Val {
	if p, ok := dyn.Underlying().(*types.Pointer); ok {
		o := newObj("result of "+sp.key, p.Elem())
		st.objs[o.id] = e.symVal(st, p.Elem(), "res")
		return &PtrVal{obj: o, elem: p.Elem()}
	}
	return e.symVal(st, dyn, "res")
}

func fnShort(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// lvalue resolution for modifies clauses
type lval struct {
	obj  *Obj // local object
	fld  int
	heap []string // heap arrays
	ref  *Term
	glob string // ghost variable
}

func (e *Engine) applyModifies(s *State, en *env, sp *FuncSpec) {
	for _, m := range sp.modifies {
		for _, l := range e.lvals(en, m) {
			switch {
			case l.glob != "":
				if t, ok := s.ghost[l.glob]; ok {
					s.ghost[l.glob] = fresh(t.sort, l.glob)
				} else {
					g := e.specs.ghosts[l.glob]
					s.ghost[l.glob] = fresh(sortOf(e.resolveType(g)), l.glob)
				}
				e.rec.ghostWrite(l.glob)
			case l.obj != nil:
				if e.rec != nil {
					e.rec.objWrite(l.obj.id, l.fld)
				}
				if l.fld >= 0 {
					ft := l.obj.t.Underlying().(*types.Struct).Field(l.fld).Type()
					s.objs[l.obj.id] = e.storePath(s, s.objs[l.obj.id], l.obj.t, []PathElem{{field: l.fld}}, e.symVal(s, ft, "mod"))
				} else {
					s.objs[l.obj.id] = e.symVal(s, l.obj.t, "mod")
				}
			default:
				for _, h := range l.heap {
					so := heapSorts[h]
					hv := e.heapGet(s, h, so)
					if l.ref == nil {
						s.heap[h] = fresh(so, h)
						if e.rec != nil {
							e.rec.heapWrite(h, nil)
						}
						continue
					}
					s.heap[h] = tStore(hv, l.ref, fresh(arrElem(so), h+".m"))
					if e.rec != nil {
						e.rec.heapWrite(h, l.ref)
					}
				}
			}
		}
	}
	// fresh memory may be written by any callee: heaps it allocates in
	for _, ft := range sp.freshIn {
		t := e.resolveType(ft)
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			continue
		}
		d, v := mapHeaps(m)
		ks, es := sortOf(m.Key()), sortOf(m.Elem())
		for _, p := range [][2]string{{d, arrSort("Int", arrSort(ks, "Bool"))}, {v, arrSort("Int", arrSort(ks, es))}} {
			h := p[0]
			old := e.heapGet(s, h, p[1])
			nh := fresh(p[1], h)
			r := boundVarN("Int", "r.fresh")
			s.assume(mkBinder("forall", []*Term{r}, tImp(tLt(r, en.old.alloc), tEq(tSelect(nh, r), tSelect(old, r))), [][]*Term{{tSelect(nh, r)}}))
			s.heap[h] = nh
			if e.rec != nil {
				e.rec.heapWrite(h, freshMarker())
			}
		}
	}
}

// boundVarN: bound variables with a fixed name, so that equal formulas are
// equal terms.
func boundVarN(sort, name string) *Term {
	t := mk(sort, "?"+name)
	t.bv = true
	t.free = true
	return t
}

var intrinsics = map[string]func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont){}

func (e *Engine) explicitElems(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case *SliceVal:
		n, ok := intLit(s.ln)
		o, ok2 := intLit(s.off)
		a, ok3 := st.objs[s.obj.id].(*ArrVal)
		if !ok || !ok2 || !ok3 || a.term != nil {
			return nil, false
		}
		return a.elems[o : o+n], true
	case *Term:
		if isCtor(s) {
			if n, ok := intLit(tSliceLen(s)); ok && n == 0 {
				return nil, true
			}
		}
	}
	return nil, false
}

// comesBack: a call of fn can lead to the function under verification.
func (e *Engine) comesBack(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == e.cur.fn {
			return true
		}
		if seen[f] || !e.isRepoFn(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}
