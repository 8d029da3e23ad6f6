package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.  Structured values exist so that values that are
// known precisely (addresses of locals, slices under construction, interfaces
// with a known dynamic type) stay known; every value can be turned into a Term.
type Val interface{}

type StructVal struct {
	t      types.Type
	fields []Val
}

type PathElem struct {
	field int   // >=0: struct field
	idx   *Term // array element when field < 0
}

// PtrVal points into a local object or a global.
type PtrVal struct {
	obj  *Obj
	path []PathElem
	elem types.Type // type pointed to
}

// HeapPtr points into memory addressed by a reference term: base is a pointer
// to a value of type baseT; path leads to the part.
type HeapPtr struct {
	base  *Term
	baseT types.Type // type of the object base points to
	path  []PathElem
	elem  types.Type
}

// SliceVal is a slice of a local array object.
type SliceVal struct {
	obj  *Obj
	off  *Term
	ln   *Term
	elem types.Type
}

// ElemPtr is the address of element idx of a slice value (read only).
type ElemPtr struct {
	sl   *Term
	idx  *Term
	elem types.Type
	path []PathElem
	t    types.Type // type at path
}

type IfaceVal struct {
	dyn types.Type
	val Val
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Val
}

type TupleVal []Val

// Obj is a local memory object; its content lives in the state.
type Obj struct {
	id     int
	name   string
	t      types.Type // type of content
	array  bool
	global *ssa.Global
	depth  int
}

var objCount int

func newObj(name string, t types.Type) *Obj {
	objCount++
	objTypes[objCount] = t
	return &Obj{id: objCount, name: name, t: t}
}

// ArrVal is the content of an array object: either explicit or a term.
type ArrVal struct {
	elem  types.Type
	elems []Val // explicit when term == nil
	term  *Term // (Array Int E)
}

// sorts ---------------------------------------------------------------------

const (
	sRef   = "Int"
	sStr   = "Str"
	sIface = "Iface"
)

func initSorts() {
	declareSort(sStr, "(declare-sort Str 0)")
	declareSort(sIface, "(declare-datatypes ((Iface 0)) (((mkiface (itag Int) (idata Int)))))")
	regCtor("Iface", "mkiface", []string{"itag", "idata"})
}

func regCtor(sort, ctor string, sels []string) {
	ctorSyms[ctor] = true
	symSort[ctor] = sort
	for i, s := range sels {
		selectorOf[s] = selInfo{ctor, i}
		symSort[s] = sort
	}
}

func tMkIface(tag, data *Term) *Term {
	// (mkiface (itag x) (idata x)) = x
	if tag.op == "itag" && data.op == "idata" && tag.args[0] == data.args[0] {
		return tag.args[0]
	}
	return mk(sIface, "mkiface", tag, data)
}
func tTag(i *Term) *Term  { return tSel("Int", "itag", i) }
func tData(i *Term) *Term { return tSel("Int", "idata", i) }

var tNilIface *Term

func nilIface() *Term {
	if tNilIface == nil {
		tNilIface = tMkIface(tInt(0), tInt(0))
	}
	return tNilIface
}

func typeName(t types.Type) string {
	s := types.TypeString(deepUnalias(t), func(p *types.Package) string {
		return p.Name()
	})
	return strings.ReplaceAll(s, "interface{}", "any")
}

func deepUnalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Pointer:
		if y := deepUnalias(x.Elem()); y != x.Elem() {
			return types.NewPointer(y)
		}
	case *types.Slice:
		if y := deepUnalias(x.Elem()); y != x.Elem() {
			return types.NewSlice(y)
		}
	case *types.Map:
		k, v := deepUnalias(x.Key()), deepUnalias(x.Elem())
		if k != x.Key() || v != x.Elem() {
			return types.NewMap(k, v)
		}
	}
	return t
}

var repoPkgs = map[*types.Package]bool{}

const repoPath = "github.com/kwilteam/kuneiform"

func isRepoType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		return p != nil && (p.Path() == repoPath || strings.HasPrefix(p.Path(), repoPath+"/"))
	}
	return false
}

func isExternalNamed(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && !isRepoType(t)
	}
	return false
}

// typeTag gives a distinct positive integer constant to each dynamic type.
var typeTags = map[string]*Term{}
var tagTypes = map[*Term]types.Type{}

func typeTag(t types.Type) *Term {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if x, ok := typeTags[k]; ok {
		return x
	}
	x := tInt(int64(len(typeTags) + 1))
	typeTags[k] = x
	tagTypes[x] = t
	for _, n := range implNames {
		implAxiom(n, x)
	}
	return x
}

// impl.I(tag): the type with this tag implements interface I.
var implNames []string
var implIfaces = map[string]*types.Interface{}

func implOf(tag *Term, name string, it *types.Interface) *Term {
	if implIfaces[name] == nil {
		implIfaces[name] = it
		implNames = append(implNames, name)
		declareFun("impl."+name, []string{"Int"}, "Bool")
		for _, n := range implNames[:len(implNames)-1] {
			implIncl(name, n)
			implIncl(n, name)
		}
		for i := 1; i <= len(typeTags); i++ {
			implAxiom(name, tInt(int64(i)))
		}
	}
	return app("Bool", "impl."+name, tag)
}

// implIncl: every type that implements a implements b too.
func implIncl(a, b string) {
	if !types.Implements(implIfaces[a], implIfaces[b]) {
		return
	}
	t := boundVarN("Int", "tag.i")
	x := app("Bool", "impl."+a, t)
	addAxiom("implIncl", mkBinder("forall", []*Term{t}, tImp(x, app("Bool", "impl."+b, t)), [][]*Term{{x}}), "impl."+a, "impl."+b)
}

func implAxiom(name string, tag *Term) {
	t := app("Bool", "impl."+name, tag)
	if !types.Implements(tagTypes[tag], implIfaces[name]) {
		t = tNot(t)
	}
	addAxiom("implements", t, "impl."+name)
}

func structSortName(t types.Type) string {
	return "S." + mangle(typeName(t))
}

func isCtxStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && isRepoType(t) && n.Obj().Pkg().Name() == "kfgrammar"
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isNodeType(t) {
		return sRef
	}
	if st, ok := t.(*setType); ok {
		return arrSort(sortOf(st.elem), "Bool")
	}
	if at, ok := t.(*arrayType); ok {
		return arrSort(sortOf(at.key), sortOf(at.elem))
	}
	if so, ok := t.(*sortType); ok {
		return so.sort
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sRef
	case *types.Interface:
		return sIface
	case *types.Slice:
		return sliceSort(u.Elem())
	case *types.Struct:
		return structSort(t)
	case *types.Array:
		return arrSort("Int", sortOf(u.Elem()))
	}
	unsup("sort of %s", t)
	return ""
}

func sliceSort(elem types.Type) string {
	es := sortOf(elem)
	n := "Sl." + mangle(es)
	sliceElemSort[n] = es
	if _, ok := sortDecls[n]; !ok {
		c, d, l, z := "mk."+n, n+".d", n+".l", n+".z"
		declareSort(n, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s (%s (Array Int %s)) (%s Int) (%s Bool)))))", n, c, d, es, l, z), es)
		regCtor(n, c, []string{d, l, z})
		// lengths are never negative, nil slices are empty: assumed on demand
	}
	return n
}

func tSliceMk(elem types.Type, d, l, z *Term) *Term {
	n := sliceSort(elem)
	return mk(n, "mk."+n, d, l, z)
}
func tSliceData(s *Term) *Term {
	es := strings.TrimPrefix(s.sort, "Sl.")
	_ = es
	return tSel(arrSort("Int", sliceElemSort[s.sort]), s.sort+".d", s)
}
func tSliceLen(s *Term) *Term { return tSel("Int", s.sort+".l", s) }
func tSliceNil(s *Term) *Term { return tSel("Bool", s.sort+".z", s) }

var sliceElemSort = map[string]string{}

func sliceOf(elem types.Type) string {
	n := sliceSort(elem)
	sliceElemSort[n] = sortOf(elem)
	return n
}

var structInfo = map[string]types.Type{}

func structSort(t types.Type) string {
	t = types.Unalias(t)
	st := t.Underlying().(*types.Struct)
	n := structSortName(t)
	if _, ok := sortDecls[n]; ok {
		return n
	}
	if isExternalNamed(t) {
		declareSort(n, "(declare-sort "+n+" 0)")
		return n
	}
	structInfo[n] = t
	c := "mk." + n
	var b strings.Builder
	var sels []string
	var deps []string
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", n, c)
	for i := 0; i < st.NumFields(); i++ {
		fs := sortOf(st.Field(i).Type())
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			sliceOf(st.Field(i).Type().Underlying().(*types.Slice).Elem())
		}
		deps = append(deps, fs)
		sel := n + "." + mangle(st.Field(i).Name())
		if st.Field(i).Name() == "_" {
			sel = n + "._" + strconv.Itoa(i)
		}
		sels = append(sels, sel)
		fmt.Fprintf(&b, " (%s %s)", sel, fs)
	}
	b.WriteString("))))")
	if st.NumFields() == 0 {
		b.Reset()
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s))))", n, c)
	}
	declareSort(n, b.String(), deps...)
	regCtor(n, c, sels)
	return n
}

func structSel(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	nm := mangle(st.Field(i).Name())
	if st.Field(i).Name() == "_" {
		nm = "_" + strconv.Itoa(i)
	}
	return structSortName(t) + "." + nm
}

func tField(t types.Type, i int, x *Term) *Term {
	structSort(t)
	st := t.Underlying().(*types.Struct)
	if isExternalNamed(t) {
		return app(sortOf(st.Field(i).Type()), structSel(t, i), x)
	}
	return tSel(sortOf(st.Field(i).Type()), structSel(t, i), x)
}

// strings --------------------------------------------------------------------

var strLits = map[string]*Term{}
var litOf = map[*Term]string{}

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	n := "str"
	if len(s) <= 24 {
		n = "str." + mangle(s)
	}
	n = freshName(n)
	declareConst(n, sStr)
	t := mk(sStr, n)
	strLits[s] = t
	litOf[t] = s
	markDistinct("Str", t)
	return t
}

func strLen(t *Term) *Term {
	if s, ok := litOf[t]; ok {
		return tInt(int64(len(s)))
	}
	r := app("Int", "str.len", t)
	return r
}

func strAt(t, i *Term) *Term {
	if s, ok := litOf[t]; ok {
		if n, ok := intLit(i); ok && n >= 0 && int(n) < len(s) {
			return tInt(int64(s[n]))
		}
	}
	if t.op == "str.sub" {
		return strAt(t.args[0], tAdd(t.args[1], i))
	}
	return app("Int", "str.at", t, i)
}

func strSub(t, lo, hi *Term) *Term {
	if s, ok := litOf[t]; ok {
		a, ok1 := intLit(lo)
		b, ok2 := intLit(hi)
		if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(s) {
			return strLit(s[a:b])
		}
	}
	if n, ok := intLit(lo); ok && n == 0 && hi == strLen(t) {
		return t
	}
	if t.op == "str.sub" {
		// (t[a:b])[lo:hi] = t[a+lo:a+hi]
		return strSub(t.args[0], tAdd(t.args[1], lo), tAdd(t.args[1], hi))
	}
	return app(sStr, "str.sub", t, lo, hi)
}

func strCat(a, b *Term) *Term {
	x, ok1 := litOf[a]
	y, ok2 := litOf[b]
	if ok1 && ok2 {
		return strLit(x + y)
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	if b.op == "str.cat" {
		return strCat(strCat(a, b.args[0]), b.args[1])
	}
	if ok2 && a.op == "str.cat" {
		if z, ok := litOf[a.args[1]]; ok {
			return strCat(a.args[0], strLit(z+y))
		}
	}
	return app(sStr, "str.cat", a, b)
}

func strPrefix(s, p *Term) *Term {
	if pl, ok := litOf[p]; ok {
		if sl, ok := litOf[s]; ok {
			return boolT(strings.HasPrefix(sl, pl))
		}
		c := []*Term{tLe(tInt(int64(len(pl))), strLen(s))}
		for i := 0; i < len(pl); i++ {
			c = append(c, tEq(strAt(s, tInt(int64(i))), tInt(int64(pl[i]))))
		}
		return tAnd(c...)
	}
	return app("Bool", "str.prefix", s, p)
}

func initStringAxioms() {
	// lengths are natural numbers
	s := boundVar(sStr, "s")
	l := app("Int", "str.len", s)
	addAxiom("str.len>=0", mkBinder("forall", []*Term{s}, tLe(tInt(0), l), [][]*Term{{l}}), "str.len")
	// a string of length 0 is ""
	e := strLit("")
	addAxiom("str.len=0", mkBinder("forall", []*Term{s}, tEq(tEq(l, tInt(0)), tEq(s, e)), [][]*Term{{l}}), "str.len")
	lo, hi := boundVar("Int", "lo"), boundVar("Int", "hi")
	sub := app(sStr, "str.sub", s, lo, hi)
	addAxiom("str.sub.len", mkBinder("forall", []*Term{s, lo, hi},
		tImp(tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, l)), tEq(app("Int", "str.len", sub), tSub(hi, lo))), [][]*Term{{sub}}), "str.sub", "str.len")
	addAxiom("str.sub.whole", mkBinder("forall", []*Term{s, lo, hi},
		tImp(tAnd(tEq(lo, tInt(0)), tEq(hi, l)), tEq(sub, s)), [][]*Term{{sub}}), "str.sub", "str.len")
	lo2, hi2 := boundVar("Int", "lo2"), boundVar("Int", "hi2")
	subsub := app(sStr, "str.sub", sub, lo2, hi2)
	addAxiom("str.sub.sub", mkBinder("forall", []*Term{s, lo, hi, lo2, hi2},
		tImp(tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, l), tLe(tInt(0), lo2), tLe(lo2, hi2), tLe(hi2, tSub(hi, lo))),
			tEq(subsub, app(sStr, "str.sub", s, tAdd(lo, lo2), tAdd(lo, hi2)))), [][]*Term{{subsub}}), "str.sub", "str.len")
	a, b := boundVar(sStr, "a"), boundVar(sStr, "b")
	cat := app(sStr, "str.cat", a, b)
	la, lb := app("Int", "str.len", a), app("Int", "str.len", b)
	addAxiom("str.cat.len", mkBinder("forall", []*Term{a, b}, tEq(app("Int", "str.len", cat), tAdd(la, lb)), [][]*Term{{cat}}), "str.cat", "str.len")
	// lower-casing is idempotent
	lw := app(sStr, "str.lower", s)
	addAxiom("str.lower.idem", mkBinder("forall", []*Term{s}, tEq(app(sStr, "str.lower", lw), lw), [][]*Term{{lw}}), "str.lower")
}

// literalFacts: facts about string literals appearing in a term set.
func litFacts(t *Term) []*Term {
	s, ok := litOf[t]
	if !ok {
		return nil
	}
	var r []*Term
	r = append(r, tEq(app("Int", "str.len", t), tInt(int64(len(s)))))
	for i := 0; i < len(s) && i < 8; i++ {
		r = append(r, tEq(app("Int", "str.at", t, tInt(int64(i))), tInt(int64(s[i]))))
	}
	return r
}

// boxing ---------------------------------------------------------------------

// box turns a value of a non-interface type into interface data.
func boxData(t types.Type, x *Term) *Term {
	switch x.sort {
	case "Int":
		return x
	}
	s := mangle(x.sort)
	bn, un := "box."+s, "unbox."+s
	r := app("Int", bn, x)
	if _, ok := decls[un]; !ok {
		declareFun(un, []string{"Int"}, x.sort)
		v := boundVar(x.sort, "v")
		bv := mk("Int", bn, v)
		addAxiom("unbox."+s, mkBinder("forall", []*Term{v}, tEq(mk(x.sort, un, bv), v), [][]*Term{{bv}}), bn)
	}
	return r
}

func unboxData(t types.Type, d *Term) *Term {
	so := sortOf(t)
	if so == "Int" {
		return d
	}
	s := mangle(so)
	if d.op == "box."+s {
		return d.args[0]
	}
	// make sure the axiom exists
	boxData(t, mk(so, declDummy(so)))
	return app(so, "unbox."+s, d)
}

func declDummy(so string) string {
	n := "dummy." + mangle(so)
	declareConst(n, so)
	return n
}

// constants
func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	return constTerm(c.Value, t)
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolT(constant.BoolVal(v))
		case b.Info()&types.IsString != 0:
			return strLit(constant.StringVal(v))
		case b.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(v))
			if !ok {
				u, ok := constant.Uint64Val(constant.ToInt(v))
				if !ok {
					unsup("integer constant %s", v)
				}
				return mk("Int", strconv.FormatUint(u, 10))
			}
			return tInt(n)
		}
	}
	if v.Kind() == constant.Float {
		return app("Int", "float."+mangle(v.ExactString()))
	}
	unsup("constant %s of type %s", v, t)
	return nil
}

func zeroVal(t types.Type) Val {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strLit("")
		}
		return tInt(0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return tInt(0)
	case *types.Interface:
		return nilIface()
	case *types.Slice:
		sliceOf(u.Elem())
		return tSliceMk(u.Elem(), zeroArr(u.Elem()), tInt(0), tTrue)
	case *types.Struct:
		if isExternalNamed(t) {
			so := structSort(t)
			return app(so, "zero."+so)
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroVal(u.Field(i).Type())
		}
		return &StructVal{t, fs}
	case *types.Array:
		n := int(u.Len())
		if n <= 64 {
			es := make([]Val, n)
			for i := range es {
				es[i] = zeroVal(u.Elem())
			}
			return &ArrVal{elem: u.Elem(), elems: es}
		}
		return &ArrVal{elem: u.Elem(), term: zeroArr(u.Elem())}
	case *types.Tuple:
		r := make(TupleVal, u.Len())
		for i := range r {
			r[i] = zeroVal(u.At(i).Type())
		}
		return r
	}
	unsup("zero value of %s", t)
	return nil
}

func zeroArr(elem types.Type) *Term {
	z := zeroTerm(elem)
	return tConstArr(arrSort("Int", z.sort), z)
}

func zeroTerm(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isExternalNamed(t) {
			so := structSort(t)
			return app(so, "zero."+so)
		}
		so := structSort(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		return mk(so, "mk."+so, as...)
	case *types.Array:
		return zeroArr(u.Elem())
	}
	return zeroVal(t).(*Term)
}
