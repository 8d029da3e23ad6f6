package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// symVal makes an unconstrained value of type t.
func (e *Engine) symVal(st *State, t types.Type, name string) Val {
	t = types.Unalias(t)
	if tup, ok := t.(*types.Tuple); ok {
		r := make(TupleVal, tup.Len())
		for i := range r {
			r[i] = e.symVal(st, tup.At(i).Type(), name)
		}
		return r
	}
	x := fresh(sortOf(t), name)
	e.assumeWF(st, t, x)
	return x
}

// assumeWF records facts every Go value of the type satisfies.
func (e *Engine) assumeWF(st *State, t types.Type, x *Term) {
	if x.free {
		return
	}
	t = types.Unalias(t)
	if isNodeType(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isCtor(x) {
			return
		}
		l := tSliceLen(x)
		st.assume(tLe(tInt(0), l))
		st.assume(tImp(tSliceNil(x), tEq(l, tInt(0))))
	case *types.Map, *types.Pointer:
		if len(x.args) == 0 && isLit(x) {
			return
		}
		st.assume(tLe(tInt(0), x))
		st.assume(tLt(x, st.alloc))
	case *types.Interface:
		if isCtor(x) {
			return
		}
		st.assume(tLe(tInt(0), tTag(x)))
		st.assume(tImp(tEq(tTag(x), tInt(0)), tEq(tData(x), tInt(0))))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 && !isLit(x) {
			st.assume(tLe(tInt(0), x))
		}
	}
}

func (e *Engine) newRef(st *State, why string) *Term {
	// references are numbered in allocation order
	r := st.alloc
	st.alloc = tAdd(st.alloc, tInt(1))
	st.nonnil[r] = true
	st.refs = append(st.refs, r)
	e.rec.noteAlloc(r)
	return r
}

// toTerm converts any value of Go type t to a term.
func (e *Engine) toTerm(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x == nil {
			unsup("missing value of type %s", t)
		}
		return x
	case *StructVal:
		so := structSort(x.t)
		u := x.t.Underlying().(*types.Struct)
		as := make([]*Term, len(x.fields))
		for i, f := range x.fields {
			as[i] = e.toTerm(st, f, u.Field(i).Type())
		}
		return mkStruct(so, as)
	case *SliceVal:
		return e.freeze(st, x)
	case *IfaceVal:
		return tMkIface(typeTag(x.dyn), boxData(x.dyn, e.toTerm(st, x.val, x.dyn)))
	case *PtrVal:
		if len(x.path) != 0 {
			return e.interior(e.publish(st, x.obj), x.obj.t, x.path)
		}
		return e.publish(st, x.obj)
	case *HeapPtr:
		return e.interior(x.base, x.baseT, x.path)
	case *FuncVal:
		n := "func." + mangle(x.fn.String())
		declareConst(n, "Int")
		return mk("Int", n)
	case *ArrVal:
		return e.arrTerm(st, x)
	case *ElemPtr:
		unsup("address of slice element used as value")
	}
	unsup("value %T as term (type %s)", v, t)
	return nil
}

func mkStruct(so string, as []*Term) *Term {
	// (mk (f0 x) (f1 x) ...) = x
	if len(as) > 0 {
		var base *Term
		ok := true
		for i, a := range as {
			f, isSel := selectorOf[a.op]
			if !isSel || f.ctor != "mk."+so || f.idx != i || (base != nil && base != a.args[0]) {
				ok = false
				break
			}
			base = a.args[0]
		}
		if ok && base != nil {
			return base
		}
	}
	return mk(so, "mk."+so, as...)
}

// interior pointers: the address of an embedded first field equals the
// address of the enclosing object (how the tree nodes of the ANTLR runtime
// are identified); other interior addresses are opaque.
func (e *Engine) interior(base *Term, t types.Type, path []PathElem) *Term {
	for _, p := range path {
		if p.field < 0 {
			return app("Int", "addr.elem."+mangle(typeName(t)), base, p.idx)
		}
		st := t.Underlying().(*types.Struct)
		f := st.Field(p.field)
		if !f.Embedded() {
			unsup("address of field %s.%s used as a value", typeName(t), f.Name())
		}
		t = f.Type()
	}
	return base
}

func (e *Engine) arrTerm(st *State, a *ArrVal) *Term {
	if a.term != nil {
		return a.term
	}
	t := zeroArr(a.elem)
	for i, v := range a.elems {
		t = tStore(t, tInt(int64(i)), e.toTerm(st, v, a.elem))
	}
	return t
}

// freeze turns a slice of a local array into a slice value.  The array may
// not be written any more through other names (checked on stores).
func (e *Engine) freeze(st *State, s *SliceVal) *Term {
	sliceOf(s.elem)
	a := st.objs[s.obj.id].(*ArrVal)
	d := e.arrTerm(st, a)
	if n, ok := intLit(s.off); !ok || n != 0 {
		d = app(d.sort, "arr.shift."+mangle(d.sort), d, s.off)
		e.shiftAxiom(d.sort)
	}
	st.frozen[s.obj.id] = true
	return tSliceMk(s.elem, d, s.ln, tFalse)
}

func (e *Engine) shiftAxiom(so string) {
	n := "arr.shift." + mangle(so)
	if e.shiftDone[n] {
		return
	}
	e.shiftDone[n] = true
	a, o, i := boundVar(so, "a"), boundVar("Int", "o"), boundVar("Int", "i")
	sh := app(so, n, a, o)
	sel := mk(arrElem(so), "select", sh, i)
	addAxiom(n, mkBinder("forall", []*Term{a, o, i}, tEq(sel, tSelect(a, tAdd(o, i))), [][]*Term{{sel}}), n)
}

// publish gives a local object an address and moves its content to the heap.
func (e *Engine) publish(st *State, o *Obj) *Term {
	if r, ok := st.fwd[o.id]; ok {
		return r
	}
	if o.global != nil {
		n := "gaddr." + mangle(o.name)
		declareConst(n, "Int")
		return mk("Int", n)
	}
	r := e.newRef(st, o.name)
	st.fwd[o.id] = r
	if e.rec != nil {
		for p := e.rec; p != nil; p = p.parent {
			p.fwd[o.id] = true
		}
	}
	c := st.objs[o.id]
	switch c.(type) {
	case *ArrVal:
		unsup("address of an array object escapes")
	}
	e.heapStoreAll(st, r, o.t, c)
	delete(st.objs, o.id)
	return r
}

func (e *Engine) heapStoreAll(st *State, r *Term, t types.Type, v Val) {
	if s, ok := t.Underlying().(*types.Struct); ok && !isExternalNamed(t) {
		_ = s
		e.heapStore(st, r, t, nil, v)
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		// external struct: its fields are immutable functions of the address
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			st.assume(tEq(app(sortOf(ft), "F."+mangle(typeName(t))+"."+mangle(s.Field(i).Name()), r), e.toTerm(st, e.fieldOf(st, v, t, i), ft)))
		}
		return
	}
	e.heapSet(st, derefHeap(t), r, e.toTerm(st, v, t))
}

func (e *Engine) fieldOf(st *State, v Val, t types.Type, i int) Val {
	switch x := v.(type) {
	case *StructVal:
		return x.fields[i]
	case *Term:
		f := tField(t, i, x)
		if st != nil {
			e.assumeWF(st, t.Underlying().(*types.Struct).Field(i).Type(), f)
		}
		return f
	}
	unsup("field of %T", v)
	return nil
}

func (e *Engine) explode(st *State, v Val, t types.Type) *StructVal {
	if s, ok := v.(*StructVal); ok {
		return s
	}
	s := t.Underlying().(*types.Struct)
	r := &StructVal{t, make([]Val, s.NumFields())}
	for i := range r.fields {
		r.fields[i] = e.fieldOf(st, v, t, i)
	}
	return r
}

// globals ------------------------------------------------------------------

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := newObj(g.Pkg.Pkg.Name()+"."+g.Name(), g.Type().(*types.Pointer).Elem())
	o.global = g
	e.globals[g] = o
	return o
}

func (e *Engine) objContent(st *State, o *Obj) Val {
	if v, ok := st.objs[o.id]; ok {
		return v
	}
	if o.global != nil {
		v := e.globalInit(st, o)
		st.objs[o.id] = v
		return v
	}
	unsup("no content for object %s", o.name)
	return nil
}

// load / store --------------------------------------------------------------

func (e *Engine) load(st *State, p Val, t types.Type) Val {
	switch x := p.(type) {
	case *PtrVal:
		if r, ok := st.fwd[x.obj.id]; ok {
			return e.load(st, &HeapPtr{base: r, baseT: x.obj.t, path: x.path, elem: x.elem}, t)
		}
		v := e.objContent(st, x.obj)
		return e.loadPath(st, v, x.obj.t, x.path)
	case *HeapPtr:
		return e.heapLoad(st, x.base, x.baseT, x.path)
	case *ElemPtr:
		v := tSelect(tSliceData(x.sl), x.idx)
		e.assumeWF(st, x.elem, v)
		return e.loadPath(st, v, x.elem, x.path)
	case *Term:
		e.checkNonNil(st, x, "nil pointer dereference")
		return e.heapLoad(st, x, t, nil)
	}
	unsup("load through %T", p)
	return nil
}

func (e *Engine) loadPath(st *State, v Val, t types.Type, path []PathElem) Val {
	for _, p := range path {
		if p.field >= 0 {
			v = e.fieldOf(st, v, t, p.field)
			t = t.Underlying().(*types.Struct).Field(p.field).Type()
		} else {
			a, ok := t.Underlying().(*types.Array)
			if !ok {
				// object of a MakeSlice: content is ArrVal, type is the array's
				unsup("index path on %s", t)
			}
			v = e.arrGet(st, v, a.Elem(), p.idx)
			t = a.Elem()
		}
	}
	return v
}

func (e *Engine) arrGet(st *State, v Val, elem types.Type, i *Term) Val {
	switch a := v.(type) {
	case *ArrVal:
		if a.term == nil {
			if n, ok := intLit(i); ok && n >= 0 && int(n) < len(a.elems) {
				return a.elems[n]
			}
		}
		r := tSelect(e.arrTerm(st, a), i)
		e.assumeWF(st, elem, r)
		return r
	case *Term:
		r := tSelect(a, i)
		e.assumeWF(st, elem, r)
		return r
	}
	unsup("array access on %T", v)
	return nil
}

// heapLoad reads the part of the object at base selected by path.
func (e *Engine) heapLoad(st *State, base *Term, t types.Type, path []PathElem) Val {
	s, isStruct := t.Underlying().(*types.Struct)
	if !isStruct {
		r := tSelect(e.heapGet(st, derefHeap(t), arrSort("Int", sortOf(t))), base)
		e.assumeWF(st, t, r)
		return e.loadPath(st, r, t, path)
	}
	if len(path) == 0 {
		if isExternalNamed(t) {
			return app(sortOf(t), "F.deref."+mangle(typeName(t)), base)
		}
		r := &StructVal{t, make([]Val, s.NumFields())}
		for i := range r.fields {
			r.fields[i] = e.heapLoad(st, base, t, []PathElem{{field: i}})
		}
		return r
	}
	f := path[0].field
	ft := s.Field(f).Type()
	if isExternalNamed(t) && !mutableExt(t, f) {
		r := app(sortOf(ft), "F."+mangle(typeName(t))+"."+mangle(s.Field(f).Name()), base)
		e.assumeWFExt(st, ft, r)
		return e.loadPath(st, r, ft, path[1:])
	}
	if s.Field(f).Embedded() {
		return e.heapLoad(st, e.interior(base, t, path[:1]), ft, path[1:])
	}
	r := tSelect(e.heapGet(st, fieldHeap(t, f), arrSort("Int", sortOf(ft))), base)
	e.assumeWF(st, ft, r)
	return e.loadPath(st, r, ft, path[1:])
}

func (e *Engine) assumeWFExt(st *State, t types.Type, x *Term) {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map:
		// external memory is not ordered by our allocation counter
		return
	}
	e.assumeWF(st, t, x)
}

func (e *Engine) store(st *State, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case *PtrVal:
		if r, ok := st.fwd[x.obj.id]; ok {
			e.heapStore(st, r, x.obj.t, x.path, v)
			return
		}
		if st.frozen[x.obj.id] {
			unsup("write to an array shared with a published slice")
		}
		c := e.objContent(st, x.obj)
		if e.rec != nil {
			f := -1
			if len(x.path) > 0 && x.path[0].field >= 0 {
				f = x.path[0].field
			}
			e.rec.objWrite(x.obj.id, f)
		}
		st.objs[x.obj.id] = e.storePath(st, c, x.obj.t, x.path, v)
		if x.obj.global != nil {
			e.noteGlobalWrite(x.obj)
		}
	case *HeapPtr:
		e.heapStore(st, x.base, x.baseT, x.path, v)
	case *Term:
		e.checkNonNil(st, x, "nil pointer dereference")
		e.heapStore(st, x, t, nil, v)
	case *ElemPtr:
		unsup("write through a slice that may be shared")
	default:
		unsup("store through %T", p)
	}
}

func (e *Engine) storePath(st *State, c Val, t types.Type, path []PathElem, v Val) Val {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.field >= 0 {
		ft := t.Underlying().(*types.Struct).Field(p.field).Type()
		s := e.explode(st, c, t)
		n := &StructVal{s.t, append([]Val{}, s.fields...)}
		n.fields[p.field] = e.storePath(st, s.fields[p.field], ft, path[1:], v)
		return n
	}
	var elem types.Type
	switch u := t.Underlying().(type) {
	case *types.Array:
		elem = u.Elem()
	default:
		unsup("indexed store into %s", t)
	}
	a, ok := c.(*ArrVal)
	if !ok {
		a = &ArrVal{elem: elem, term: e.toTerm(st, c, t)}
	}
	if n, ok := intLit(p.idx); ok && a.term == nil && n >= 0 && int(n) < len(a.elems) {
		na := &ArrVal{elem: elem, elems: append([]Val{}, a.elems...)}
		na.elems[n] = e.storePath(st, a.elems[n], elem, path[1:], v)
		return na
	}
	at := e.arrTerm(st, a)
	nv := v
	if len(path) > 1 {
		nv = e.storePath(st, tSelect(at, p.idx), elem, path[1:], v)
	}
	return &ArrVal{elem: elem, term: tStore(at, p.idx, e.toTerm(st, nv, elem))}
}

func (e *Engine) heapStore(st *State, base *Term, t types.Type, path []PathElem, v Val) {
	s, isStruct := t.Underlying().(*types.Struct)
	if isExternalNamed(t) && isStruct && (len(path) == 0 || !mutableExt(t, path[0].field)) {
		unsup("write to external object %s", t)
	}
	if !isStruct {
		if len(path) != 0 {
			unsup("indexed heap store")
		}
		e.heapSet(st, derefHeap(t), base, e.toTerm(st, v, t))
		return
	}
	if len(path) == 0 {
		for i := 0; i < s.NumFields(); i++ {
			e.heapStore(st, base, t, []PathElem{{field: i}}, e.fieldOf(st, v, t, i))
		}
		return
	}
	f := path[0].field
	ft := s.Field(f).Type()
	if s.Field(f).Embedded() {
		e.heapStore(st, e.interior(base, t, path[:1]), ft, path[1:], v)
		return
	}
	if len(path) > 1 {
		old := e.heapLoad(st, base, t, path[:1])
		v = e.storePath(st, old, ft, path[1:], v)
	}
	e.heapSet(st, fieldHeap(t, f), base, e.toTerm(st, v, ft))
}

// checkNonNil emits the obligation that a pointer is not nil.
func (e *Engine) checkNonNil(st *State, x *Term, what string) {
	if st.nonnil[x] || x.free {
		return
	}
	if len(x.args) == 0 && isLit(x) {
		if n, _ := intLit(x); n != 0 {
			return
		}
	}
	g := tNot(tEq(x, tInt(0)))
	e.safety(st, g, what)
	st.assume(g)
	st.nonnil[x] = true
}

// mutableExt: a field of the parser runtime that the generated constructors set.
func mutableExt(t types.Type, f int) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !isExternalNamed(t) {
		return false
	}
	switch typeName(t) {
	case "antlr.BaseLexer", "antlr.BaseParser", "antlr.BaseRecognizer":
		switch s.Field(f).Name() {
		case "Interpreter", "RuleNames", "LiteralNames", "SymbolicNames", "GrammarFileName":
			return true
		}
	}
	return false
}
