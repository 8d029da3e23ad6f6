package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by package name
	globals   map[*ssa.Global]*Obj
	rec       *recorder
	shiftDone map[string]bool
	specs     *SpecFile
	obls      []*obligation
	cur       *Unit // unit being verified
	paths     int
	joining   bool // arrivals at loops are put aside in pending
	pending   map[*loopInfo][]*loopEntry
	steps     int
	collect   *[]*backOb // back-edge obligations while running Houdini
	mute      bool       // do not emit obligations
	inlined   map[string]bool
	externs   map[string]bool
	frameInfo map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	tableMemo map[*ssa.Alloc]string
	roGlobals map[*ssa.Global]*globInfo
	wroteGlob map[string]bool
	notes     map[string]bool
	houdini   int
	implCache map[*types.Interface][]types.Type
	callStack []*ssa.Function
	loopInv   map[string]int

	typeCache     map[string]types.Type
	typePkgs      map[string][]*types.Package
	specMissing   map[string]string // contract item -> why it does not apply
	qdepth        int
	treeMode      bool
	accessorsUsed map[string]bool
	errTerms      map[*Term]bool
	contractsUsed map[string]bool
	effects       map[*ssa.Function]*effect
	repoSSA       []*ssa.Package
	allFns        []*ssa.Function
	fnByKey       map[string]*ssa.Function
	sigByKey      map[string]*types.Signature
}

type backOb struct {
	facts []*Term
	goal  *Term
	idx   int
}

type Unit struct {
	fn        *ssa.Function
	spec      *FuncSpec
	name      string
	alloc0    *Term
	preHeap   map[string]*Term
	pre       *State
	params    []Val
	props     []string
	hadReturn bool
	returns   [][]*Term // facts at each return
	nFacts    int
	lets      map[string]sval
}

const maxPaths = 6000

func (e *Engine) safety(st *State, g *Term, what string) {
	e.oblig(st, g, "safety: "+what, "safety", e.safetyProps())
}

func (e *Engine) safetyProps() []string {
	if e.cur == nil || e.cur.spec == nil {
		return nil
	}
	sp := e.cur.spec
	if sp.safety != nil {
		return sp.safety
	}
	if sp.noPanic != nil {
		return sp.noPanic
	}
	if len(sp.exsures) > 0 {
		m := map[string]bool{}
		for _, c := range sp.exsures {
			for _, p := range c.props {
				m[p] = true
			}
		}
		return sortedKeys(m)
	}
	return e.cur.allProps()
}

func (e *Engine) oblig(st *State, g *Term, name, kind string, props []string) {
	if e.mute || e.rec != nil || st.cut {
		return
	}
	if st.decide(g) == tTrue {
		g = tTrue
	}
	if g.op == "and" && kind != "inv" {
		for _, a := range g.args {
			e.oblig(st, a, name, kind, props)
		}
		return
	}
	o := &obligation{fn: e.cur.name, name: name, props: props, goal: g, kind: kind, trace: st.trace}
	if g == tTrue {
		o.status = "proved"
		o.solver = "simplifier"
	} else {
		o.facts = st.facts
	}
	e.obls = append(e.obls, o)
}

// loops -----------------------------------------------------------------------

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := e.frameInfo[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := r[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = li
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if li := r[b]; li != nil {
			li.ord = n
			n++
		}
	}
	e.frameInfo[fn] = r
	return r
}

// isRetreating: an edge into a non-dominating earlier block (irreducible).
func (e *Engine) run(fr *Frame, b, prev *ssa.BasicBlock, st *State, k Cont) {
	if st.cut {
		return
	}
	// leaving loops
	for h, al := range fr.loops {
		if prev != nil && al.li.blocks[prev] && !al.li.blocks[b] {
			if al.onExit != nil && al.onExit() {
				return
			}
			delete(fr.loops, h)
		}
	}
	if li := e.loopsOf(fr.fn)[b]; li != nil {
		if al, ok := fr.loops[b]; ok && prev != nil && li.blocks[prev] {
			al.onBack(st, fr, prev)
			return
		}
		e.enterLoop(fr, li, prev, st, k)
		return
	}
	e.runPhis(fr, b, prev, st)
	e.runFrom(fr, b, 0, st, k)
}

func (e *Engine) runPhis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = e.val(fr, st, p.Edges[pi])
	}
	for p, v := range vals {
		fr.locals[p] = v
	}
}

func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &FuncVal{fn: x}
	case *ssa.Global:
		o := e.globalObj(x)
		return &PtrVal{obj: o, elem: o.t}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.locals[v]
	if !ok {
		unsup("value %s undefined in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *Engine) term(fr *Frame, st *State, v ssa.Value) *Term {
	return e.toTerm(st, e.val(fr, st, v), v.Type())
}

func (e *Engine) runFrom(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.cut {
			return
		}
		e.steps++
		if e.steps > 3000000 {
			unsup("too many steps")
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			if e.rec != nil {
				if bo, ok := in.Cond.(*ssa.BinOp); ok && sortOf(bo.X.Type()) == "Int" {
					e.rec.noteCond(fr.fn, b, e.term(fr, st, bo.X), e.term(fr, st, bo.Y))
				}
			}
			c := st.decide(e.term(fr, st, in.Cond))
			if c == tTrue {
				e.run(fr, b.Succs[0], b, st, k)
				return
			}
			if c == tFalse {
				e.run(fr, b.Succs[1], b, st, k)
				return
			}
			e.paths++
			if e.paths > maxPaths {
				unsup("more than %d paths", maxPaths)
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st.trace = append(st.trace, e.where(in)+" true")
			st2.assume(tNot(c))
			st2.trace = append(st2.trace, e.where(in)+" false")
			e.run(fr, b.Succs[0], b, st, k)
			e.run(fr2, b.Succs[1], b, st2, k)
			return
		case *ssa.Jump:
			e.run(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			res := make([]Val, len(in.Results))
			for j, r := range in.Results {
				res[j] = e.val(fr, st, r)
			}
			k.ret(st, res)
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				if !silentChan(in.X) {
					unsup("receive from a channel")
				}
				e.atPark(st)
				return
			}
			e.instr(fr, st, in)
			continue
		case *ssa.Select:
			if !in.Blocking || len(in.States) > 0 {
				unsup("select")
			}
			e.atPark(st)
			return
		case *ssa.Panic:
			v := e.val(fr, st, in.X)
			e.doPanic(fr, st, v, k)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			j := i + 1
			e.runDefers(fr, ds, st, func(st *State) {
				f := fr.clone()
				f.defers = nil
				e.runFrom(f, b, j, st, k)
			}, k)
			return
		case *ssa.Defer:
			d := &deferred{common: in.Common(), instr: in}
			c := in.Common()
			if c.IsInvoke() {
				d.fv = e.val(fr, st, c.Value)
			} else if _, ok := c.Value.(*ssa.Function); !ok {
				d.fv = e.val(fr, st, c.Value)
			}
			for _, a := range c.Args {
				d.args = append(d.args, e.val(fr, st, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Call:
			c := in.Common()
			var fv Val
			if c.IsInvoke() {
				fv = e.val(fr, st, c.Value)
			} else if _, ok := c.Value.(*ssa.Function); !ok {
				fv = e.val(fr, st, c.Value)
			}
			args := make([]Val, len(c.Args))
			for j, a := range c.Args {
				args[j] = e.val(fr, st, a)
			}
			j := i + 1
			e.call(fr, st, c, fv, args, in, false, Cont{
				ret: func(st2 *State, res []Val) {
					f := fr.clone()
					switch len(res) {
					case 0:
					case 1:
						f.locals[in] = res[0]
					default:
						f.locals[in] = TupleVal(res)
					}
					e.runFrom(f, b, j, st2, k)
				},
				pan: func(st2 *State, v Val) {
					e.doPanic(fr.clone(), st2, v, k)
				},
			})
			return
		default:
			e.instr(fr, st, in)
		}
	}
	unsup("block without terminator")
}

// doPanic unwinds the current frame.
func (e *Engine) doPanic(fr *Frame, st *State, v Val, k Cont) {
	if len(fr.defers) == 0 {
		k.pan(st, v)
		return
	}
	ds := fr.defers
	fr.defers = nil
	saved := st.panicV
	st.panicV = &panicking{v: v}
	e.runDefers(fr, ds, st, func(st *State) {
		p, _ := st.panicV.(*panicking)
		st.panicV = saved
		if p != nil && p.recovered {
			// resume at the recover block, which returns the named results
			f := fr.clone()
			if f.fn.Recover != nil {
				e.runFrom(f, f.fn.Recover, 0, st, k)
			} else {
				var res []Val
				sig := f.fn.Signature.Results()
				for i := 0; i < sig.Len(); i++ {
					res = append(res, zeroVal(sig.At(i).Type()))
				}
				k.ret(st, res)
			}
			return
		}
		k.pan(st, v)
	}, k)
}

type panicking struct {
	v         Val
	recovered bool
}

func (e *Engine) runDefers(fr *Frame, ds []*deferred, st *State, done func(*State), k Cont) {
	if len(ds) == 0 {
		done(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	e.call(fr, st, d.common, d.fv, d.args, d.instr, true, Cont{
		ret: func(st *State, res []Val) { e.runDefers(fr, rest, st, done, k) },
		pan: func(st *State, v Val) {
			// a panic inside a deferred function replaces the current one
			f := fr.clone()
			f.defers = rest
			st.panicV = nil
			e.doPanic(f, st, v, k)
		},
	})
}

func (e *Engine) where(in ssa.Instruction) string {
	p := e.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		// branch conditions have no position of their own
		for _, op := range in.Operands(nil) {
			if *op != nil {
				if q := e.prog.Fset.Position((*op).Pos()); q.IsValid() {
					p = q
				}
			}
		}
	}
	f := p.Filename
	if j := strings.LastIndexByte(f, '/'); j >= 0 {
		f = f[j+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// single instructions -----------------------------------------------------------

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if _, ok := e.isTableAlloc(x); ok {
			fr.locals[x] = tInt(0)
			return
		}
		t := x.Type().(*types.Pointer).Elem()
		o := newObj(x.Comment, t)
		o.depth = fr.depth
		st.objs[o.id] = zeroVal(t)
		fr.locals[x] = &PtrVal{obj: o, elem: t}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && e.inTable(ia) {
			return
		}
		e.store(st, e.val(fr, st, x.Addr), x.Val.Type(), e.val(fr, st, x.Val))
	case *ssa.UnOp:
		fr.locals[x] = e.unop(fr, st, x)
	case *ssa.BinOp:
		fr.locals[x] = e.binop(fr, st, x)
	case *ssa.FieldAddr:
		fr.locals[x] = e.fieldAddr(fr, st, x)
	case *ssa.Field:
		fr.locals[x] = e.fieldOf(st, e.val(fr, st, x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		if e.inTable(x) {
			return
		}
		fr.locals[x] = e.indexAddr(fr, st, x)
	case *ssa.Index:
		fr.locals[x] = e.index(fr, st, x)
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if k, ok := e.isTableAlloc(a); ok {
				fr.locals[x] = e.tableVal(st, k, x.Type())
				return
			}
		}
		fr.locals[x] = e.slice(fr, st, x)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := e.term(fr, st, x.Len)
		e.safety(st, tLe(tInt(0), n), "negative slice length")
		st.assume(tLe(tInt(0), n))
		o := newObj("makeslice", types.NewArray(et, 1<<40))
		o.array = true
		st.objs[o.id] = &ArrVal{elem: et, term: zeroArr(et)}
		fr.locals[x] = &SliceVal{obj: o, off: tInt(0), ln: n, elem: et}
	case *ssa.MakeChan:
		fr.locals[x] = e.newRef(st, "chan")
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		r := e.newRef(st, "map")
		dom, val := mapHeaps(m)
		ks, es := sortOf(m.Key()), sortOf(m.Elem())
		e.heapGet(st, dom, arrSort("Int", arrSort(ks, "Bool")))
		e.heapGet(st, val, arrSort("Int", arrSort(ks, es)))
		e.heapSet(st, dom, r, tConstArr(arrSort(ks, "Bool"), tFalse))
		e.heapSet(st, val, r, tConstArr(arrSort(ks, es), zeroTerm(m.Elem())))
		fr.locals[x] = r
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		r := e.term(fr, st, x.Map)
		e.checkNonNil(st, r, "assignment to entry in nil map")
		key, v := e.term(fr, st, x.Key), e.term(fr, st, x.Value)
		dom, val := mapHeaps(m)
		d, w := e.mapDom(st, m, r), e.mapVal(st, m, r)
		e.heapSet(st, dom, r, tStore(d, key, tTrue))
		e.heapSet(st, val, r, tStore(w, key, v))
	case *ssa.Lookup:
		fr.locals[x] = e.lookup(fr, st, x)
	case *ssa.MakeInterface:
		fr.locals[x] = &IfaceVal{dyn: types.Unalias(x.X.Type()), val: e.val(fr, st, x.X)}
	case *ssa.ChangeInterface:
		v := e.val(fr, st, x.X)
		if _, isErr := implementsError(x.X.Type()); isErr {
			if t, ok := v.(*Term); ok {
				e.errTerms[t] = true
			}
		}
		fr.locals[x] = v
	case *ssa.ChangeType:
		fr.locals[x] = e.val(fr, st, x.X)
	case *ssa.Convert:
		fr.locals[x] = e.convert(fr, st, x)
	case *ssa.TypeAssert:
		fr.locals[x] = e.typeAssert(fr, st, x)
	case *ssa.Extract:
		fr.locals[x] = e.val(fr, st, x.Tuple).(TupleVal)[x.Index]
	case *ssa.MakeClosure:
		f := &FuncVal{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(fr, st, b))
		}
		fr.locals[x] = f
	default:
		unsup("instruction %T", in)
	}
}

func (e *Engine) fieldAddr(fr *Frame, st *State, x *ssa.FieldAddr) Val {
	bt := x.X.Type().Underlying().(*types.Pointer).Elem()
	ft := bt.Underlying().(*types.Struct).Field(x.Field).Type()
	pe := PathElem{field: x.Field}
	switch p := e.val(fr, st, x.X).(type) {
	case *PtrVal:
		return &PtrVal{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pe), elem: ft}
	case *HeapPtr:
		return &HeapPtr{base: p.base, baseT: p.baseT, path: append(p.path[:len(p.path):len(p.path)], pe), elem: ft}
	case *ElemPtr:
		return &ElemPtr{sl: p.sl, idx: p.idx, elem: p.elem, path: append(p.path[:len(p.path):len(p.path)], pe), t: ft}
	case *Term:
		e.checkNonNil(st, p, "nil pointer dereference")
		return &HeapPtr{base: p, baseT: bt, path: []PathElem{pe}, elem: ft}
	default:
		unsup("field address of %T", p)
	}
	return nil
}

func (e *Engine) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	i := e.term(fr, st, x.Index)
	switch v := e.val(fr, st, x.X).(type) {
	case *PtrVal: // pointer to array
		a := v.elem.Underlying().(*types.Array)
		e.bounds(st, i, tInt(a.Len()))
		return &PtrVal{obj: v.obj, path: append(v.path[:len(v.path):len(v.path)], PathElem{field: -1, idx: i}), elem: a.Elem()}
	case *SliceVal:
		e.bounds(st, i, v.ln)
		return &PtrVal{obj: v.obj, path: []PathElem{{field: -1, idx: tAdd(v.off, i)}}, elem: v.elem}
	case *Term:
		et := x.X.Type().Underlying().(*types.Slice).Elem()
		sliceOf(et)
		e.bounds(st, i, tSliceLen(v))
		return &ElemPtr{sl: v, idx: i, elem: et, t: et}
	default:
		unsup("index address of %T", v)
	}
	return nil
}

func (e *Engine) bounds(st *State, i, n *Term) {
	g := tAnd(tLe(tInt(0), i), tLt(i, n))
	e.safety(st, g, "index out of range")
	st.assume(g)
}

func (e *Engine) index(fr *Frame, st *State, x *ssa.Index) Val {
	i := e.term(fr, st, x.Index)
	if sortOf(x.X.Type()) == sStr {
		s := e.term(fr, st, x.X)
		e.bounds(st, i, strLen(s))
		return strAt(s, i)
	}
	a := x.X.Type().Underlying().(*types.Array)
	e.bounds(st, i, tInt(a.Len()))
	return e.arrGet(st, e.val(fr, st, x.X), a.Elem(), i)
}

func (e *Engine) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	var lo, hi *Term
	lo = tInt(0)
	if x.Low != nil {
		lo = e.term(fr, st, x.Low)
	}
	if x.Max != nil {
		unsup("three-index slice")
	}
	v := e.val(fr, st, x.X)
	getHi := func(n *Term) {
		if x.High != nil {
			hi = e.term(fr, st, x.High)
		} else {
			hi = n
		}
		g := tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, n))
		e.safety(st, g, "slice bounds out of range")
		st.assume(g)
	}
	if sortOf(x.X.Type()) == sStr {
		s := e.toTerm(st, v, x.X.Type())
		getHi(strLen(s))
		return strSub(s, lo, hi)
	}
	switch p := v.(type) {
	case *PtrVal:
		a := p.elem.Underlying().(*types.Array)
		if len(p.path) != 0 {
			unsup("slice of an array inside an object")
		}
		getHi(tInt(a.Len()))
		return &SliceVal{obj: p.obj, off: lo, ln: tSub(hi, lo), elem: a.Elem()}
	case *SliceVal:
		getHi(p.ln)
		if x.High != nil && e.sliceAppended(x) {
			unsup("append to a shortened slice")
		}
		return &SliceVal{obj: p.obj, off: tAdd(p.off, lo), ln: tSub(hi, lo), elem: p.elem}
	case *Term:
		et := x.X.Type().Underlying().(*types.Slice).Elem()
		sliceOf(et)
		getHi(tSliceLen(p))
		if x.High != nil && e.sliceAppended(x) {
			unsup("append to a shortened slice")
		}
		d := tSliceData(p)
		if n, ok := intLit(lo); !ok || n != 0 {
			d = app(d.sort, "arr.shift."+mangle(d.sort), d, lo)
			e.shiftAxiom(d.sort)
		}
		return tSliceMk(et, d, tSub(hi, lo), tAnd(tSliceNil(p)))
	}
	unsup("slice of %T", v)
	return nil
}

func (e *Engine) sliceAppended(x *ssa.Slice) bool {
	for _, r := range *x.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && c.Call.Args[0] == x {
				return true
			}
		}
		if _, ok := r.(*ssa.Phi); ok {
			return true
		}
		if _, ok := r.(*ssa.Store); ok {
			return true
		}
	}
	return false
}

func (e *Engine) lookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	if sortOf(x.X.Type()) == sStr {
		s := e.term(fr, st, x.X)
		i := e.term(fr, st, x.Index)
		e.bounds(st, i, strLen(s))
		return strAt(s, i)
	}
	m := x.X.Type().Underlying().(*types.Map)
	r := e.term(fr, st, x.X)
	key := e.term(fr, st, x.Index)
	v, ok := e.mapGet(st, m, r, key)
	if x.CommaOk {
		return TupleVal{v, ok}
	}
	return v
}

func (e *Engine) mapGet(st *State, m *types.Map, r, key *Term) (v, ok *Term) {
	ok = tSelect(e.mapDom(st, m, r), key)
	if len(r.args) == 0 && r == tInt(0) {
		ok = tFalse
	}
	raw := tSelect(e.mapVal(st, m, r), key)
	e.assumeWF(st, m.Elem(), raw)
	v = tIte(ok, raw, zeroTerm(m.Elem()))
	return
}

func (e *Engine) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		return e.load(st, e.val(fr, st, x.X), x.Type())
	case token.NOT:
		return tNot(e.term(fr, st, x.X))
	case token.SUB:
		return tSub(tInt(0), e.term(fr, st, x.X))
	case token.XOR:
		return app("Int", "bv.not", e.term(fr, st, x.X))
	}
	unsup("unary %s", x.Op)
	return nil
}

func (e *Engine) eqVals(st *State, a Val, at types.Type, b Val, bt types.Type) *Term {
	_, ai := at.Underlying().(*types.Interface)
	_, bi := bt.Underlying().(*types.Interface)
	isNilI := func(v Val) bool { t, ok := v.(*Term); return ok && t == nilIface() }
	if ai && isNilI(b) {
		return e.isNilVal(st, a, at)
	}
	if bi && isNilI(a) {
		return e.isNilVal(st, b, bt)
	}
	if ai && !bi {
		return tEq(e.toTerm(st, a, at), tMkIface(typeTag(bt), boxData(bt, e.toTerm(st, b, bt))))
	}
	if bi && !ai {
		return e.eqVals(st, b, bt, a, at)
	}
	isZero := func(v Val) bool { t, ok := v.(*Term); return ok && t.sort == "Int" && t == tInt(0) }
	switch at.Underlying().(type) {
	case *types.Slice:
		if t, ok := b.(*Term); ok && isCtor(t) && tSliceNil(t) == tTrue {
			return e.isNilVal(st, a, at)
		}
		if t, ok := a.(*Term); ok && isCtor(t) && tSliceNil(t) == tTrue {
			return e.isNilVal(st, b, bt)
		}
		unsup("slice comparison")
	case *types.Pointer, *types.Signature:
		if isZero(b) {
			return e.isNilVal(st, a, at)
		}
		if isZero(a) {
			return e.isNilVal(st, b, bt)
		}
		pa, ok1 := a.(*PtrVal)
		pb, ok2 := b.(*PtrVal)
		if ok1 && ok2 && len(pa.path) == 0 && len(pb.path) == 0 {
			return boolT(pa.obj == pb.obj)
		}
	}
	return tEq(e.toTerm(st, a, at), e.toTerm(st, b, bt))
}

func (e *Engine) isNilVal(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *IfaceVal, *PtrVal, *HeapPtr, *FuncVal, *SliceVal, *ElemPtr:
		return tFalse
	case *Term:
		switch t.Underlying().(type) {
		case *types.Interface:
			return tEq(tTag(x), tInt(0))
		case *types.Slice:
			return tSliceNil(x)
		}
		return tEq(x, tInt(0))
	}
	unsup("nil test of %T", v)
	return nil
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	switch x.Op {
	case token.EQL:
		return e.eqVals(st, a, x.X.Type(), b, x.Y.Type())
	case token.NEQ:
		return tNot(e.eqVals(st, a, x.X.Type(), b, x.Y.Type()))
	}
	ta, tb := e.toTerm(st, a, x.X.Type()), e.toTerm(st, b, x.Y.Type())
	if ta.sort == sStr {
		switch x.Op {
		case token.ADD:
			return strCat(ta, tb)
		case token.LSS:
			return app("Bool", "str.lt", ta, tb)
		case token.GTR:
			return app("Bool", "str.lt", tb, ta)
		case token.LEQ:
			return tNot(app("Bool", "str.lt", tb, ta))
		case token.GEQ:
			return tNot(app("Bool", "str.lt", ta, tb))
		}
	}
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		unsup("floating point arithmetic")
	}
	switch x.Op {
	case token.ADD:
		return tAdd(ta, tb)
	case token.SUB:
		return tSub(ta, tb)
	case token.MUL:
		return tMul(ta, tb)
	case token.LSS:
		return tLt(ta, tb)
	case token.LEQ:
		return tLe(ta, tb)
	case token.GTR:
		return tLt(tb, ta)
	case token.GEQ:
		return tLe(tb, ta)
	case token.QUO, token.REM:
		e.safety(st, tNot(tEq(tb, tInt(0))), "division by zero")
		m, ok1 := intLit(ta)
		n, ok2 := intLit(tb)
		if ok1 && ok2 && n != 0 {
			if x.Op == token.QUO {
				return tInt(m / n)
			}
			return tInt(m % n)
		}
		return app("Int", "int."+x.Op.String()[:1]+"div", ta, tb)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		m, ok1 := intLit(ta)
		n, ok2 := intLit(tb)
		if ok1 && ok2 {
			v := constant.BinaryOp(constant.MakeInt64(m), x.Op, constant.MakeInt64(n))
			if x.Op == token.SHL || x.Op == token.SHR {
				v = constant.Shift(constant.MakeInt64(m), x.Op, uint(n))
			}
			r, _ := constant.Int64Val(v)
			return tInt(r)
		}
		nm := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[x.Op]
		return app("Int", "bv."+nm, ta, tb)
	}
	unsup("operator %s", x.Op)
	return nil
}

func (e *Engine) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := e.val(fr, st, x.X)
	from, to := x.X.Type(), x.Type()
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			tb, ok := to.Underlying().(*types.Basic)
			if !ok {
				unsup("conversion %s to %s", from, to)
			}
			// integers are mathematical; narrowing is not modelled
			if sizeOf(tb) < sizeOf(fb) {
				if c, ok := v.(*Term); !ok || !isLit(c) {
					return app("Int", "narrow."+tb.Name(), e.toTerm(st, v, from))
				}
			}
		}
		return v
	}
	if ts == sStr {
		if _, ok := from.Underlying().(*types.Slice); ok {
			return e.strOfSlice(e.toTerm(st, v, from))
		}
		return app(sStr, "str.ofrune", e.toTerm(st, v, from))
	}
	if fs == sStr {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			sliceOf(sl.Elem())
			return e.sliceOfStr(e.toTerm(st, v, from), ts)
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func sizeOf(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

// byte slices and strings: round trips are the identity.
func (e *Engine) strOfSlice(s *Term) *Term {
	if strings.HasPrefix(s.op, "sl.ofstr.") {
		return s.args[0]
	}
	return app(sStr, "str.of."+mangle(s.sort), s)
}
func (e *Engine) sliceOfStr(s *Term, so string) *Term {
	return app(so, "sl.ofstr."+mangle(so), s)
}

func (e *Engine) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	v := e.val(fr, st, x.X)
	ok, r := e.assertTo(st, v, x.X.Type(), x.AssertedType)
	if x.CommaOk {
		if okd := st.decide(ok); okd != tTrue {
			// value is the zero value when the assertion fails
			if okd == tFalse {
				return TupleVal{zeroVal(x.AssertedType), tFalse}
			}
			if t, isT := r.(*Term); isT {
				return TupleVal{t, ok} // only meaningful under ok
			}
		}
		return TupleVal{r, ok}
	}
	e.safety(st, ok, "type assertion may fail")
	st.assume(ok)
	return r
}

// assertTo gives the condition under which v has type t, and v as that type.
func (e *Engine) assertTo(st *State, v Val, from, t types.Type) (*Term, Val) {
	ti, isI := t.Underlying().(*types.Interface)
	switch x := v.(type) {
	case *IfaceVal:
		if isI {
			return boolT(types.Implements(x.dyn, ti)), x
		}
		if types.Identical(x.dyn, t) {
			return tTrue, x.val
		}
		return tFalse, zeroVal(t)
	case *Term:
		if isI {
			if fi, ok := from.Underlying().(*types.Interface); ok && types.Implements(fi, ti) {
				return tNot(tEq(tTag(x), tInt(0))), x
			}
			if n, ok := intLit(tTag(x)); ok {
				for k, v := range typeTags {
					_ = k
					if m, _ := intLit(v); m == n {
						return boolT(types.Implements(tagTypes[v], ti)), x
					}
				}
				if n == 0 {
					return tFalse, x
				}
			}
			return tAnd(tNot(tEq(tTag(x), tInt(0))), implOf(tTag(x), mangle(typeName(t)), ti)), x
		}
		ok := tEq(tTag(x), typeTag(t))
		d := unboxData(t, tData(x))
		if _, isP := t.Underlying().(*types.Pointer); isP {
			// pointers stored in interfaces are not nil (assumption)
			if !d.free {
				st.assume(tImp(ok, tNot(tEq(d, tInt(0)))))
				st.nonnil[d] = true
			}
		}
		return ok, d
	}
	unsup("type assertion on %T", v)
	return nil, nil
}
