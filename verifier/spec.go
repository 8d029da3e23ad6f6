package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specErr: a contract mentions something the code does not have (any more).
type specErr struct{ msg string }

func serr(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

// pseudo types ---------------------------------------------------------------------

var nodeType = types.NewNamed(types.NewTypeName(0, nil, "node", nil), types.Typ[types.Int], nil)

func isNodeType(t types.Type) bool { return t == types.Type(nodeType) }

type setType struct{ elem types.Type }

func (s *setType) Underlying() types.Type { return types.Typ[types.Invalid] }
func (s *setType) String() string         { return "set[" + s.elem.String() + "]" }

// arrayType is a total map of the specification language.
type arrayType struct{ key, elem types.Type }

func (s *arrayType) Underlying() types.Type { return types.Typ[types.Invalid] }
func (s *arrayType) String() string         { return "array[" + s.key.String() + "]" + s.elem.String() }

type sortType struct{ sort string }

func (s *sortType) Underlying() types.Type { return types.Typ[types.Invalid] }
func (s *sortType) String() string         { return s.sort }

var anyType = types.NewInterfaceType(nil, nil)

type sval struct {
	v Val
	t types.Type
}

type env struct {
	e    *Engine
	st   *State
	old  *State
	vars map[string]sval
	spec *FuncSpec
	deep int
}

func (v *env) with(name string, x sval) *env {
	n := *v
	n.vars = make(map[string]sval, len(v.vars)+1)
	for k, y := range v.vars {
		n.vars[k] = y
	}
	n.vars[name] = x
	return &n
}

func (e *Engine) unitEnv(st *State) *env {
	u := e.cur
	en := &env{e: e, st: st, old: u.pre, vars: map[string]sval{}, spec: u.spec}
	if u.spec != nil {
		for i, p := range u.spec.params {
			if i < len(u.params) {
				en.vars[p] = sval{u.params[i], u.fn.Params[i].Type()}
			}
		}
		for k, v := range u.lets {
			en.vars[k] = v
		}
	}
	return en
}

func (e *Engine) tryLen(st *State, en *env, x expr) (r *Term) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case unsupported, specErr:
				r = nil
				return
			}
			panic(p)
		}
	}()
	v := e.eval(en, x)
	if t, ok := v.v.(*Term); ok && t.sort == "Int" {
		if _, isMap := v.t.Underlying().(*types.Map); !isMap {
			return t
		}
	}
	return e.lenOf(st, v.v, v.t)
}

// types ----------------------------------------------------------------------------

func (e *Engine) resolveType(s string) types.Type {
	if t, ok := e.typeCache[s]; ok {
		return t
	}
	t := e.resolveType1(s)
	e.typeCache[s] = t
	return t
}

func (e *Engine) resolveType1(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(e.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(e.resolveType(s[2:]))
	case strings.HasPrefix(s, "map["), strings.HasPrefix(s, "array["):
		arr := s[0] == 'a'
		if arr {
			s = "map" + s[5:]
		}
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					if arr {
						return &arrayType{e.resolveType(s[4:i]), e.resolveType(s[i+1:])}
					}
					return types.NewMap(e.resolveType(s[4:i]), e.resolveType(s[i+1:]))
				}
			}
		}
	case strings.HasPrefix(s, "set["):
		return &setType{e.resolveType(s[4 : len(s)-1])}
	}
	switch s {
	case "node":
		return nodeType
	case "any":
		return anyType
	case "error":
		return types.Universe.Lookup("error").Type()
	case "byte":
		return types.Typ[types.Byte]
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		for _, p := range e.typePkgs[s[:i]] {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return types.Unalias(tn.Type())
				}
			}
		}
		serr("no type %s", s)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	serr("no type %s", s)
	return nil
}

// evaluation -----------------------------------------------------------------------

func (e *Engine) evalBool(en *env, x expr) *Term {
	v := e.eval(en, x)
	t, ok := v.v.(*Term)
	if !ok || t.sort != "Bool" {
		serr("condition is not boolean")
	}
	return t
}

func (e *Engine) evalTerm(en *env, x expr) (*Term, types.Type) {
	v := e.eval(en, x)
	return e.toTermQ(en.st, v.v, v.t), v.t
}

// toTermQ converts without publishing local objects.
func (e *Engine) toTermQ(st *State, v Val, t types.Type) *Term {
	if p, ok := v.(*PtrVal); ok {
		if _, pub := st.fwd[p.obj.id]; !pub && p.obj.global == nil {
			n := fmt.Sprintf("local.obj.%d", p.obj.id)
			declareConst(n, "Int")
			return mk("Int", n)
		}
	}
	if s, ok := v.(*SliceVal); ok {
		c := st.frozen[s.obj.id]
		r := e.freeze(st, s)
		if !c {
			delete(st.frozen, s.obj.id)
		}
		return r
	}
	if iv, ok := v.(*IfaceVal); ok {
		return tMkIface(typeTag(iv.dyn), boxData(iv.dyn, e.toTermQ(st, iv.val, iv.dyn)))
	}
	if sv, ok := v.(*StructVal); ok {
		so := structSort(sv.t)
		u := sv.t.Underlying().(*types.Struct)
		as := make([]*Term, len(sv.fields))
		for i, f := range sv.fields {
			as[i] = e.toTermQ(st, f, u.Field(i).Type())
		}
		return mkStruct(so, as)
	}
	return e.toTerm(st, v, t)
}

type nilMark struct{}

func (e *Engine) eval(en *env, x expr) sval {
	switch n := x.(type) {
	case *eInt:
		return sval{tInt(n.n), types.Typ[types.Int]}
	case *eStr:
		return sval{strLit(n.s), types.Typ[types.String]}
	case *eIdent:
		return e.evalIdent(en, n.name)
	case *eUn:
		return e.evalUn(en, n)
	case *eBin:
		return e.evalBin(en, n)
	case *eSel:
		return e.evalSel(en, n)
	case *eIndex:
		return e.evalIndex(en, n)
	case *eSlice:
		return e.evalSlice(en, n)
	case *eQuant:
		return e.evalQuant(en, n)
	case *eCall:
		return e.evalCall(en, n)
	}
	serr("expression %T", x)
	return sval{}
}

func (e *Engine) evalIdent(en *env, name string) sval {
	if v, ok := en.vars[name]; ok {
		return v
	}
	switch name {
	case "true":
		return sval{tTrue, types.Typ[types.Bool]}
	case "false":
		return sval{tFalse, types.Typ[types.Bool]}
	case "nil":
		return sval{nilMark{}, types.Typ[types.UntypedNil]}
	}
	if g, ok := e.specs.ghosts[name]; ok {
		return sval{e.ghostGet(en.st, name), e.resolveType(g)}
	}
	if d, ok := e.specs.preds[name]; ok && len(d.params) == 0 {
		return e.callPred(en, d, nil)
	}
	serr("unknown name %s", name)
	return sval{}
}

func (e *Engine) ghostGet(st *State, name string) *Term {
	if t, ok := st.ghost[name]; ok {
		return t
	}
	so := sortOf(e.resolveType(e.specs.ghosts[name]))
	n := "@ghost." + name
	declareConst(n, so)
	t := mk(so, n)
	st.ghost[name] = t
	return t
}

func (e *Engine) evalUn(en *env, n *eUn) sval {
	switch n.op {
	case "!":
		return sval{tNot(e.evalBool(en, n.x)), types.Typ[types.Bool]}
	case "-":
		t, _ := e.evalTerm(en, n.x)
		return sval{tSub(tInt(0), t), types.Typ[types.Int]}
	case "*":
		v := e.eval(en, n.x)
		return e.deref(en, v)
	}
	return sval{}
}

func (e *Engine) deref(en *env, v sval) sval {
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		serr("dereference of %s", v.t)
	}
	return sval{e.quiet(func() Val { return e.load(en.st, v.v, p.Elem()) }), p.Elem()}
}

// quiet runs f without emitting obligations.
func (e *Engine) quiet(f func() Val) Val {
	m := e.mute
	e.mute = true
	defer func() { e.mute = m }()
	return f()
}

func (e *Engine) evalBin(en *env, n *eBin) sval {
	b := func(t *Term) sval { return sval{t, types.Typ[types.Bool]} }
	switch n.op {
	case "&&":
		x := e.evalBool(en, n.x)
		if x == tFalse {
			return b(tFalse)
		}
		return b(tAnd(x, e.evalBool(en, n.y)))
	case "||":
		x := e.evalBool(en, n.x)
		if x == tTrue {
			return b(tTrue)
		}
		return b(tOr(x, e.evalBool(en, n.y)))
	case "==>":
		x := e.evalBool(en, n.x)
		if x == tFalse {
			return b(tTrue)
		}
		return b(tImp(x, e.evalBool(en, n.y)))
	case "<==>":
		return b(tEq(e.evalBool(en, n.x), e.evalBool(en, n.y)))
	case "==", "!=":
		t := e.specEq(en, e.eval(en, n.x), e.eval(en, n.y))
		if n.op == "!=" {
			t = tNot(t)
		}
		return b(t)
	case "in":
		k, _ := e.evalTerm(en, n.x)
		m := e.eval(en, n.y)
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			return b(tSelect(e.mapDom(en.st, mt, e.toTermQ(en.st, m.v, m.t)), k))
		}
		if _, ok := m.t.(*setType); ok {
			return b(tSelect(m.v.(*Term), k))
		}
		serr("in: not a map or set")
	}
	x, xt := e.evalTerm(en, n.x)
	y, _ := e.evalTerm(en, n.y)
	switch n.op {
	case "<":
		return b(tLt(x, y))
	case "<=":
		return b(tLe(x, y))
	case ">":
		return b(tLt(y, x))
	case ">=":
		return b(tLe(y, x))
	case "+":
		if x.sort == sStr {
			return sval{strCat(x, y), xt}
		}
		return sval{tAdd(x, y), xt}
	case "-":
		return sval{tSub(x, y), xt}
	case "*":
		return sval{tMul(x, y), xt}
	}
	serr("operator %s", n.op)
	return sval{}
}

func (e *Engine) specEq(en *env, a, b sval) *Term {
	if _, ok := a.v.(nilMark); ok {
		a, b = b, a
	}
	if _, ok := b.v.(nilMark); ok {
		if _, ok := a.v.(nilMark); ok {
			return tTrue
		}
		return e.isNilVal(en.st, a.v, a.t)
	}
	ta, tb := e.toTermQ(en.st, a.v, a.t), e.toTermQ(en.st, b.v, b.t)
	if ta.sort != tb.sort {
		if ta.sort == sIface {
			tb = tMkIface(typeTag(b.t), boxData(b.t, tb))
		} else if tb.sort == sIface {
			ta = tMkIface(typeTag(a.t), boxData(a.t, ta))
		} else {
			serr("comparison of %s and %s", a.t, b.t)
		}
	}
	return tEq(ta, tb)
}

func (e *Engine) pkgMember(en *env, pkg, name string) (sval, bool) {
	for _, p := range e.typePkgs[pkg] {
		o := p.Scope().Lookup(name)
		switch c := o.(type) {
		case *types.Const:
			if c.Val().Kind() == constant.Int && c.Type().Underlying().(*types.Basic).Info()&types.IsUntyped != 0 {
				return sval{constTerm(c.Val(), types.Typ[types.Int]), types.Typ[types.Int]}, true
			}
			return sval{constTerm(c.Val(), c.Type()), c.Type()}, true
		case *types.Var:
			sp := e.prog.Package(p)
			if sp == nil {
				serr("no package %s", pkg)
			}
			g := sp.Var(name)
			ob := e.globalObj(g)
			return sval{e.quiet(func() Val { return e.load(en.st, &PtrVal{obj: ob, elem: ob.t}, ob.t) }), ob.t}, true
		}
	}
	return sval{}, false
}

func (e *Engine) evalSel(en *env, n *eSel) sval {
	if id, ok := n.x.(*eIdent); ok {
		if _, isVar := en.vars[id.name]; !isVar {
			if _, isPkg := e.typePkgs[id.name]; isPkg {
				if v, ok := e.pkgMember(en, id.name, n.name); ok {
					return v
				}
				serr("no %s.%s", id.name, n.name)
			}
		}
	}
	return e.selField(en, e.eval(en, n.x), n.name)
}

func (e *Engine) selField(en *env, v sval, name string) sval {
	t := types.Unalias(v.t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		stt, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			serr("field %s of %s", name, t)
		}
		obj, idx, _ := types.LookupFieldOrMethod(p.Elem(), true, e.fieldPkg(p.Elem()), name)
		fv, ok := obj.(*types.Var)
		if !ok {
			serr("no field %s in %s", name, t)
		}
		if len(idx) == 1 {
			var val Val
			pe := PathElem{field: idx[0]}
			val = e.quiet(func() Val {
				switch pv := v.v.(type) {
				case *PtrVal:
					return e.load(en.st, &PtrVal{obj: pv.obj, path: append(pv.path[:len(pv.path):len(pv.path)], pe), elem: fv.Type()}, fv.Type())
				case *HeapPtr:
					return e.heapLoad(en.st, pv.base, pv.baseT, append(pv.path[:len(pv.path):len(pv.path)], pe))
				case *Term:
					return e.heapLoad(en.st, pv, p.Elem(), []PathElem{pe})
				case *ElemPtr:
					return e.load(en.st, &ElemPtr{sl: pv.sl, idx: pv.idx, elem: pv.elem, path: append(pv.path[:len(pv.path):len(pv.path)], pe)}, fv.Type())
				}
				serr("field of %T", v.v)
				return nil
			})
			return sval{val, fv.Type()}
		}
		_ = stt
		d := e.deref(en, v)
		return e.selField(en, d, name)
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				var st *State
				return sval{e.fieldOf(st, v.v, t, i), s.Field(i).Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
					return e.selField(en, sval{e.fieldOf(nil, v.v, t, i), s.Field(i).Type()}, name)
				}
			}
		}
	}
	serr("no field %s in %s", name, v.t)
	return sval{}
}

func (e *Engine) fieldPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (e *Engine) evalIndex(en *env, n *eIndex) sval {
	v := e.eval(en, n.x)
	if _, ok := v.t.(*setType); ok {
		k, _ := e.evalTerm(en, n.i)
		return sval{tSelect(v.v.(*Term), k), types.Typ[types.Bool]}
	}
	if at, ok := v.t.(*arrayType); ok {
		k, _ := e.evalTerm(en, n.i)
		return sval{tSelect(v.v.(*Term), k), at.elem}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Map:
		k, _ := e.evalTerm(en, n.i)
		r := e.toTermQ(en.st, v.v, v.t)
		ok := tSelect(e.mapDom(en.st, u, r), k)
		raw := tSelect(e.mapVal(en.st, u, r), k)
		return sval{tIte(ok, raw, zeroTerm(u.Elem())), u.Elem()}
	case *types.Slice:
		i, _ := e.evalTerm(en, n.i)
		if s, ok := v.v.(*SliceVal); ok {
			return sval{e.arrGet(en.st, en.st.objs[s.obj.id], s.elem, tAdd(s.off, i)), u.Elem()}
		}
		sliceOf(u.Elem())
		return sval{tSelect(tSliceData(v.v.(*Term)), i), u.Elem()}
	case *types.Basic:
		i, _ := e.evalTerm(en, n.i)
		return sval{strAt(v.v.(*Term), i), types.Typ[types.Byte]}
	case *types.Array:
		i, _ := e.evalTerm(en, n.i)
		return sval{e.arrGet(en.st, v.v, u.Elem(), i), u.Elem()}
	}
	serr("index of %s", v.t)
	return sval{}
}

func (e *Engine) evalSlice(en *env, n *eSlice) sval {
	v := e.eval(en, n.x)
	t := e.toTermQ(en.st, v.v, v.t)
	lo := tInt(0)
	if n.lo != nil {
		lo, _ = e.evalTerm(en, n.lo)
	}
	if t.sort == sStr {
		hi := strLen(t)
		if n.hi != nil {
			hi, _ = e.evalTerm(en, n.hi)
		}
		return sval{strSub(t, lo, hi), v.t}
	}
	serr("slice expression on %s", v.t)
	return sval{}
}

func (e *Engine) evalQuant(en *env, n *eQuant) sval {
	inner := en
	var vs []*Term
	for i, nm := range n.names {
		t := e.resolveType(n.types[i])
		e.qdepth++
		b := boundVarN(sortOf(t), fmt.Sprintf("%s.%d", nm, e.qdepth))
		vs = append(vs, b)
		inner = inner.with(nm, sval{b, t})
	}
	body := e.evalBool(inner, n.body)
	var pats [][]*Term
	for _, tr := range n.trig {
		var p []*Term
		for _, x := range tr {
			t, _ := e.evalTerm(inner, x)
			p = append(p, t)
		}
		pats = append(pats, p)
	}
	e.qdepth -= len(n.names)
	op := "exists"
	if n.forall {
		op = "forall"
	}
	// drop trivially usable patterns
	var good [][]*Term
	for _, p := range pats {
		ok := true
		fv := map[*Term]bool{}
		for _, t := range p {
			if !patOK(t) {
				ok = false
			}
			for v := range freeVars(t) {
				fv[v] = true
			}
		}
		for _, v := range vs {
			if !fv[v] {
				ok = false
			}
		}
		if ok {
			good = append(good, p)
		}
	}
	return sval{mkBinder(op, vs, body, good), types.Typ[types.Bool]}
}

func patOK(t *Term) bool {
	if t.bv {
		return false
	}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		switch t.op {
		case "ite", "and", "or", "not", "=", "=>", "<", "<=", "forall", "exists":
			return false
		}
		for _, a := range t.args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

func (e *Engine) callPred(en *env, d *predDef, args []sval) sval {
	if len(args) != len(d.params) {
		serr("%s takes %d arguments", d.name, len(d.params))
	}
	rt := types.Type(types.Typ[types.Bool])
	if d.ret != "" {
		rt = e.resolveType(d.ret)
	}
	if d.body != nil && !d.opaque {
		if en.deep > 60 {
			serr("recursive definition %s", d.name)
		}
		n := &env{e: e, st: en.st, old: en.old, vars: map[string]sval{}, spec: en.spec, deep: en.deep + 1}
		for i, p := range d.params {
			pt := e.resolveType(d.types[i])
			a := args[i]
			n.vars[p] = e.coerce(en, a, pt)
		}
		r := e.eval(n, d.body)
		if d.ret != "" {
			return sval{r.v, rt}
		}
		return r
	}
	var ts []*Term
	for i := range d.params {
		pt := e.resolveType(d.types[i])
		a := e.coerce(en, args[i], pt)
		ts = append(ts, e.toTermQ(en.st, a.v, a.t))
	}
	return sval{app(sortOf(rt), "P."+d.name, ts...), rt}
}

// coerce adapts an argument to a declared parameter type.
func (e *Engine) coerce(en *env, a sval, pt types.Type) sval {
	if isNodeType(pt) {
		return sval{e.nodeRef(en, a), pt}
	}
	if _, ok := a.v.(nilMark); ok {
		return sval{zeroVal(pt), pt}
	}
	if _, ok := pt.(*setType); ok {
		return a
	}
	if _, ok := a.t.(*setType); ok {
		return a
	}
	_, pi := pt.Underlying().(*types.Interface)
	_, ai := a.t.Underlying().(*types.Interface)
	if pi && !ai {
		return sval{&IfaceVal{dyn: types.Unalias(a.t), val: a.v}, pt}
	}
	if !pi && ai {
		// automatic unwrapping of a known dynamic type
		if iv, ok := a.v.(*IfaceVal); ok {
			return e.coerce(en, sval{iv.val, iv.dyn}, pt)
		}
		serr("interface passed for %s", pt)
	}
	if _, ok := pt.Underlying().(*types.Struct); ok {
		if _, isP := a.t.Underlying().(*types.Pointer); isP {
			return e.deref(en, a)
		}
	}
	if sortOf(pt) != sortOf(a.t) {
		serr("argument of type %s for parameter of type %s", a.t, pt)
	}
	return sval{a.v, pt}
}

// nodeRef: the tree node an expression denotes.
func (e *Engine) nodeRef(en *env, a sval) *Term {
	switch x := a.v.(type) {
	case *IfaceVal:
		return e.nodeRef(en, sval{x.val, x.dyn})
	case *Term:
		if x.sort == sIface {
			return tData(x)
		}
		if x.sort == "Int" {
			return x
		}
	case *HeapPtr:
		return e.toTerm(en.st, x, a.t)
	}
	serr("not a tree node: %T", a.v)
	return nil
}

func nameArg(x expr) string {
	id, ok := x.(*eIdent)
	if !ok {
		serr("rule or token name expected")
	}
	return id.name
}

func (e *Engine) evalCall(en *env, n *eCall) sval {
	tb := types.Type(types.Typ[types.Bool])
	tint := types.Type(types.Typ[types.Int])
	tstr := types.Type(types.Typ[types.String])
	arg := func(i int) sval {
		if i >= len(n.args) {
			serr("%s: missing argument", n.fn)
		}
		return e.eval(en, n.args[i])
	}
	term := func(i int) *Term {
		v := arg(i)
		if _, ok := v.v.(nilMark); ok {
			return nilIface()
		}
		return e.toTermQ(en.st, v.v, v.t)
	}
	switch n.fn {
	case "calls":
		m := 0
		for _, c := range en.st.calls {
			if c.key == n.args[0].(*eStr).s {
				m++
			}
		}
		return sval{tInt(int64(m)), tint}
	case "arg", "ret":
		k, i := n.args[0].(*eStr).s, n.args[1].(*eInt).n
		for j := len(en.st.calls) - 1; j >= 0; j-- {
			c := en.st.calls[j]
			if c.key != k {
				continue
			}
			if n.fn == "arg" {
				if int(i) >= len(c.args) {
					serr("%s has no argument %d", k, i)
				}
				return sval{c.args[i], c.argT[i]}
			}
			if int(i) >= len(c.resT) {
				serr("%s has no result %d", k, i)
			}
			if c.res == nil {
				return sval{fresh(sortOf(c.resT[i]), "noresult"), c.resT[i]}
			}
			return sval{c.res[i], c.resT[i]}
		}
		// not called: nothing is known about the value
		if sig := e.sigByKey[k]; sig != nil {
			var t types.Type
			j := int(i)
			var ps []types.Type
			if sig.Recv() != nil {
				ps = append(ps, sig.Recv().Type())
			}
			for l := 0; l < sig.Params().Len(); l++ {
				ps = append(ps, sig.Params().At(l).Type())
			}
			switch {
			case n.fn == "ret" && j < sig.Results().Len():
				t = sig.Results().At(j).Type()
			case n.fn == "arg" && j < len(ps):
				t = ps[j]
			}
			if t != nil {
				return sval{e.symVal(en.st, t, "nocall"), t}
			}
		}
		serr("%s was not called", k)
	case "called": // called("f", i, v, ...): some call had these arguments
		r := tFalse
		for _, c := range en.st.calls {
			if c.key != n.args[0].(*eStr).s {
				continue
			}
			all := tTrue
			for j := 1; j+1 < len(n.args); j += 2 {
				i := n.args[j].(*eInt).n
				if int(i) >= len(c.args) {
					serr("%s has no argument %d", c.key, i)
				}
				all = tAnd(all, e.specEq(en, sval{c.args[i], c.argT[i]}, e.eval(en, n.args[j+1])))
			}
			r = tOr(r, all)
		}
		return sval{r, tb}
	case "bit": // bit(x, m): x & m is not zero, for known x
		x, ok := intLit(term(0))
		m, _ := intLit(term(1))
		if !ok {
			return sval{app("Bool", "bitset", term(0), term(1)), tb}
		}
		return sval{boolT(x&m != 0), tb}
	case "addr": // address of a package-level variable
		sel, ok := n.args[0].(*eSel)
		if !ok {
			serr("addr: package-level variable or embedded field expected")
		}
		id, isId := sel.x.(*eIdent)
		if _, bound := en.vars[identName(id)]; !isId || bound {
			// address of an embedded field
			b := e.eval(en, sel.x)
			p, ok := b.t.Underlying().(*types.Pointer)
			if !ok {
				serr("addr: %s is not a pointer", b.t)
			}
			st := p.Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == sel.name {
					return sval{e.interior(e.toTermQ(en.st, b.v, b.t), p.Elem(), []PathElem{{field: i}}), types.NewPointer(st.Field(i).Type())}
				}
			}
			serr("addr: no field %s", sel.name)
		}
		for _, p := range e.typePkgs[sel.x.(*eIdent).name] {
			if v, ok := p.Scope().Lookup(sel.name).(*types.Var); ok {
				o := e.globalObj(e.prog.Package(p).Var(sel.name))
				return sval{&PtrVal{obj: o, elem: o.t}, types.NewPointer(v.Type())}
			}
		}
		serr("no variable %s", sel.name)
	case "old":
		o := *en
		o.st = en.old
		return e.eval(&o, n.args[0])
	case "len":
		v := arg(0)
		return sval{e.lenOf(en.st, v.v, v.t), tint}
	case "ite":
		c := e.evalBool(en, n.args[0])
		a, b := arg(1), arg(2)
		return sval{tIte(c, e.toTermQ(en.st, a.v, a.t), e.toTermQ(en.st, b.v, b.t)), a.t}
	case "errIs":
		a, b := e.asIface(en, arg(0)), e.asIface(en, arg(1))
		return sval{errIs(a, b), tb}
	case "itoa":
		return sval{itoa(term(0)), types.Typ[types.String]}
	case "errMsg":
		return sval{errMsg(e.asIface(en, arg(0))), tstr}
	case "hasPrefix":
		return sval{strPrefix(term(0), term(1)), tb}
	case "lower":
		return sval{strFn1("str.lower", term(0)), tstr}
	case "trim":
		return sval{strFn1("str.trim", term(0)), tstr}
	case "contains":
		return sval{app("Bool", "str.contains", term(0), term(1)), tb}
	case "isType":
		v := arg(0)
		t := e.resolveType(n.args[1].(*eType).typ)
		ok, _ := e.assertTo(en.st, v.v, v.t, t)
		return sval{ok, tb}
	case "as":
		v := arg(0)
		t := e.resolveType(n.args[1].(*eType).typ)
		_, r := e.assertTo(en.st, v.v, v.t, t)
		return sval{r, t}
	case "count": // how many of the first elements have the type
		c := arg(0)
		st, ok := c.t.Underlying().(*types.Slice)
		if !ok {
			serr("count: slice expected")
		}
		return sval{e.countOf(e.toTermQ(en.st, c.v, c.t), st.Elem(), term(1), e.resolveType(n.args[2].(*eType).typ)), tint}
	case "val":
		v := arg(0)
		if iv, ok := v.v.(*IfaceVal); ok {
			return sval{iv.val, iv.dyn}
		}
		t, ok := v.v.(*Term)
		if ok && t.sort == sIface {
			if k, isLit := intLit(tTag(t)); isLit {
				for tt, ty := range tagTypes {
					if m, _ := intLit(tt); m == k {
						return sval{unboxData(ty, tData(t)), ty}
					}
				}
			}
			if id, isId := n.args[0].(*eIdent); isId && en.spec != nil && en.spec.shape[id.name] != "" {
				ty := e.resolveType(en.spec.shape[id.name])
				return sval{unboxData(ty, tData(t)), ty}
			}
		}
		serr("val: dynamic type unknown")
	case "box": // the value as an any
		v := arg(0)
		if _, ok := v.v.(nilMark); ok {
			return sval{nilIface(), anyType}
		}
		return sval{e.asIface(en, v), anyType}
	case "isnil":
		v := arg(0)
		return sval{e.isNilVal(en.st, v.v, v.t), tb}
	case "zero":
		t := e.resolveType(n.args[0].(*eType).typ)
		return sval{zeroTerm(t), t}
	case "bytes": // string of a byte slice
		v := arg(0)
		return sval{e.strOfSlice(e.toTermQ(en.st, v.v, v.t)), tstr}
	case "dom":
		v := arg(0)
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			serr("dom of %s", v.t)
		}
		return sval{e.mapDom(en.st, mt, e.toTermQ(en.st, v.v, v.t)), &setType{mt.Key()}}
	case "fresh":
		if p, ok := arg(0).v.(*PtrVal); ok {
			// an object made by the function and not published before the call
			_, wasPub := en.old.fwd[p.obj.id]
			_, was := en.old.objs[p.obj.id]
			return sval{boolT(!wasPub && !was), tb}
		}
		t := e.nodeRef(en, arg(0))
		return sval{tLe(en.old.alloc, t), tb}
	case "allocated":
		t := e.nodeRef(en, arg(0))
		return sval{tAnd(tLt(tInt(0), t), tLt(t, en.st.alloc)), tb}
	case "ref":
		v := arg(0)
		return sval{e.nodeRef(en, sval{e.toTermQ(en.st, v.v, v.t), v.t}), tint}
	// tree nodes
	case "text":
		return sval{nodeText(e.nodeRef(en, arg(0))), tstr}
	case "cnt":
		return sval{nodeCnt(e.nodeRef(en, arg(0)), nameArg(n.args[1])), tint}
	case "kid":
		i := tInt(0)
		if len(n.args) > 2 {
			i = term(2)
		}
		return sval{nodeKid(e.nodeRef(en, arg(0)), nameArg(n.args[1]), i), nodeType}
	case "tok":
		return sval{tLt(tInt(0), nodeCnt(e.nodeRef(en, arg(0)), nameArg(n.args[1]))), tb}
	}
	if strings.HasPrefix(n.fn, "len_") {
		serr("unknown function %s", n.fn)
	}
	d, ok := e.specs.preds[n.fn]
	if !ok {
		serr("unknown function %s", n.fn)
	}
	var as []sval
	for i := range n.args {
		as = append(as, arg(i))
	}
	return e.callPred(en, d, as)
}

func (e *Engine) asIface(en *env, v sval) *Term {
	if _, ok := v.v.(nilMark); ok {
		return nilIface()
	}
	t := e.toTermQ(en.st, v.v, v.t)
	if t.sort == sIface {
		return t
	}
	return tMkIface(typeTag(v.t), boxData(v.t, t))
}

func errIs(a, b *Term) *Term {
	if a == nilIface() {
		return tEq(b, nilIface())
	}
	return app("Bool", "errIs", a, b)
}
func errMsg(a *Term) *Term { return app(sStr, "errMsg", a) }

func strFn1(fn string, s *Term) *Term {
	if l, ok := litOf[s]; ok {
		switch fn {
		case "str.lower":
			return strLit(strings.ToLower(l))
		case "str.trim":
			return strLit(strings.TrimSpace(l))
		}
	}
	return app(sStr, fn, s)
}

// tree nodes --------------------------------------------------------------------------

func nodeText(n *Term) *Term { return app(sStr, "text", n) }
func nodeCnt(n *Term, x string) *Term {
	return app("Int", "cnt."+x, n)
}
func nodeKid(n *Term, x string, i *Term) *Term { return app("Int", "kid."+x, n, i) }

// axioms -------------------------------------------------------------------------------

// loadAxioms turns the axioms and revealed definitions into background facts.
func (e *Engine) loadAxioms() {
	for _, a := range e.specs.axioms {
		a := a
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case specErr:
						e.specMissing["axiom "+a.name] = x.msg
						return
					case unsupported:
						e.specMissing["axiom "+a.name] = x.msg
						return
					}
					panic(r)
				}
			}()
			st := e.newState()
			t := e.evalBool(&env{e: e, st: st, old: st, vars: map[string]sval{}}, a.x)
			need := map[string]bool{}
			var f func(t *Term)
			f = func(t *Term) {
				if strings.HasPrefix(t.op, "P.") {
					need[t.op] = true
				}
				for _, y := range t.args {
					f(y)
				}
			}
			// symbols of the patterns when given, else all spec functions
			if t.vars != nil && len(t.pats) > 0 {
				for _, p := range t.pats {
					for _, y := range p {
						f(y)
					}
				}
			}
			if len(need) == 0 {
				f(t)
			}
			var ns []string
			for s := range need {
				ns = append(ns, s)
			}
			sort.Strings(ns)
			addAxiom(a.name, t, ns...)
		}()
	}
}

// revealFact is the definition of an opaque predicate.
func (e *Engine) revealFact(name string) *Term {
	d := e.specs.preds[name]
	if d == nil || d.body == nil {
		serr("reveal: no definition of %s", name)
	}
	st := e.newState()
	n := &env{e: e, st: st, old: st, vars: map[string]sval{}}
	var vs, ts []*Term
	for i, p := range d.params {
		t := e.resolveType(d.types[i])
		b := boundVarN(sortOf(t), "rv."+name+"."+p)
		vs = append(vs, b)
		ts = append(ts, b)
		n.vars[p] = sval{b, t}
	}
	rt := types.Type(types.Typ[types.Bool])
	if d.ret != "" {
		rt = e.resolveType(d.ret)
	}
	l := app(sortOf(rt), "P."+d.name, ts...)
	r := e.eval(n, d.body)
	return mkBinder("forall", vs, tEq(l, e.toTermQ(st, r.v, r.t)), [][]*Term{{l}})
}

// lvals resolves a modifies clause.
func (e *Engine) lvals(en *env, x expr) []lval {
	switch n := x.(type) {
	case *eCall:
		switch n.fn {
		case "ghost":
			return []lval{{glob: nameArg(n.args[0]), fld: -1}}
		case "map":
			v := e.eval(en, n.args[0])
			m, ok := v.t.Underlying().(*types.Map)
			if !ok {
				serr("map(...) of %s", v.t)
			}
			d, w := mapHeaps(m)
			ks, es := sortOf(m.Key()), sortOf(m.Elem())
			e.heapGet(en.st, d, arrSort("Int", arrSort(ks, "Bool")))
			e.heapGet(en.st, w, arrSort("Int", arrSort(ks, es)))
			return []lval{{heap: []string{d, w}, ref: e.toTermQ(en.st, v.v, v.t), fld: -1}}
		case "values": // all maps stored in a map
			v := e.eval(en, n.args[0])
			m := v.t.Underlying().(*types.Map)
			mm, ok := m.Elem().Underlying().(*types.Map)
			if !ok {
				serr("values(...) of %s", v.t)
			}
			d, w := mapHeaps(mm)
			ks, es := sortOf(mm.Key()), sortOf(mm.Elem())
			e.heapGet(en.st, d, arrSort("Int", arrSort(ks, "Bool")))
			e.heapGet(en.st, w, arrSort("Int", arrSort(ks, es)))
			return []lval{{heap: []string{d, w}, ref: nil, fld: -1}}
		}
	case *eUn:
		if n.op == "*" {
			v := e.eval(en, n.x)
			return e.ptrLvals(en, v)
		}
	case *eSel:
		base := e.eval(en, n.x)
		p, ok := base.t.Underlying().(*types.Pointer)
		if !ok {
			serr("modifies: %s is not a pointer", base.t)
		}
		s := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != n.name {
				continue
			}
			ft := s.Field(i).Type()
			switch pv := base.v.(type) {
			case *PtrVal:
				if r, pub := en.st.fwd[pv.obj.id]; pub {
					h := fieldHeap(p.Elem(), i)
					e.heapGet(en.st, h, arrSort("Int", sortOf(ft)))
					return []lval{{heap: []string{h}, ref: r, fld: -1}}
				}
				return []lval{{obj: pv.obj, fld: i}}
			case *Term:
				if s.Field(i).Embedded() {
					h := derefHeap(ft)
					e.heapGet(en.st, h, arrSort("Int", sortOf(ft)))
					return []lval{{heap: []string{h}, ref: pv, fld: -1}}
				}
				h := fieldHeap(p.Elem(), i)
				e.heapGet(en.st, h, arrSort("Int", sortOf(ft)))
				return []lval{{heap: []string{h}, ref: pv, fld: -1}}
			}
		}
	}
	serr("modifies clause not understood")
	return nil
}

func (e *Engine) ptrLvals(en *env, v sval) []lval {
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		serr("modifies *x: x is %s", v.t)
	}
	switch x := v.v.(type) {
	case *PtrVal:
		if r, pub := en.st.fwd[x.obj.id]; pub {
			return e.refLvals(en, r, p.Elem())
		}
		if len(x.path) == 1 && x.path[0].field >= 0 {
			return []lval{{obj: x.obj, fld: x.path[0].field}}
		}
		return []lval{{obj: x.obj, fld: -1}}
	case *HeapPtr:
		return e.refLvals(en, e.toTerm(en.st, x, v.t), p.Elem())
	case *Term:
		return e.refLvals(en, x, p.Elem())
	}
	serr("modifies of %T", v.v)
	return nil
}

func (e *Engine) refLvals(en *env, r *Term, t types.Type) []lval {
	if s, ok := t.Underlying().(*types.Struct); ok && !isExternalNamed(t) {
		var out []lval
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if s.Field(i).Embedded() {
				out = append(out, e.refLvals(en, r, ft)...)
				continue
			}
			h := fieldHeap(t, i)
			e.heapGet(en.st, h, arrSort("Int", sortOf(ft)))
			out = append(out, lval{heap: []string{h}, ref: r, fld: -1})
		}
		return out
	}
	h := derefHeap(t)
	e.heapGet(en.st, h, arrSort("Int", sortOf(t)))
	return []lval{{heap: []string{h}, ref: r, fld: -1}}
}

var _ = ssa.NewProgram

func identName(id *eIdent) string {
	if id == nil {
		return ""
	}
	return id.name
}

// countOf(c, n, T): how many of the first n elements of c have type T.  The
// function is defined by the first two axioms; the other ones follow from
// them by induction (unit @count).
func (e *Engine) countOf(c *Term, elem types.Type, n *Term, t types.Type) *Term {
	fn := "count." + c.sort + "." + mangle(typeName(t))
	if !declaredFuns[fn] {
		declaredFuns[fn] = true
		declareFun(fn, []string{c.sort, "Int"}, "Int")
		v, j, k := boundVarN(c.sort, "cnt.c"), boundVarN("Int", "cnt.j"), boundVarN("Int", "cnt.k")
		at := func(i *Term) *Term { return app("Int", fn, v, i) }
		is := func(i *Term) *Term {
			ok, _ := e.assertTo(nil, tSelect(tSliceData(v), i), elem, t)
			return ok
		}
		one := tInt(1)
		addAxiom(fn, mkBinder("forall", []*Term{v, k}, tImp(tLe(k, tInt(0)), tEq(at(k), tInt(0))), [][]*Term{{at(k)}}), fn)
		addAxiom(fn, mkBinder("forall", []*Term{v, k}, tImp(tLe(tInt(0), k), tEq(at(tAdd(k, one)), tAdd(at(k), tIte(is(k), one, tInt(0))))), [][]*Term{{at(k), tSelect(tSliceData(v), k)}}), fn)
		addAxiom(fn, mkBinder("forall", []*Term{v, k}, tImp(tLe(tInt(0), k), tAnd(tLe(tInt(0), at(k)), tLe(at(k), k))), [][]*Term{{at(k)}}), fn)
		addAxiom(fn, mkBinder("forall", []*Term{v, j, k}, tImp(tAnd(tLe(tInt(0), j), tLt(j, k)), tLe(tAdd(at(j), tIte(is(j), one, tInt(0))), at(k))), [][]*Term{{at(j), at(k)}}), fn)
	}
	return app("Int", fn, c, n)
}

var declaredFuns = map[string]bool{}
