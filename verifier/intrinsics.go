package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Accessors of the generated syntax tree ------------------------------------------------

// ctxAccessor recognises the typed child accessors of the generated tree
// nodes by their signature.  what is the rule or token name.
func ctxAccessor(fn *ssa.Function) (what, kind string) {
	recv := fn.Signature.Recv()
	if recv == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "kfgrammar" {
		return
	}
	p, ok := recv.Type().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !strings.HasSuffix(n.Obj().Name(), "Context") {
		return
	}
	sig := fn.Signature
	if sig.Results().Len() != 1 || sig.Params().Len() > 1 {
		return
	}
	if sig.Params().Len() == 1 {
		if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return
		}
	}
	ruleOf := func(t types.Type) string {
		nt, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return ""
		}
		nm := nt.Obj().Name()
		if nm == "TerminalNode" && nt.Obj().Pkg().Name() == "antlr" {
			return "#"
		}
		if isRepoType(t) && strings.HasPrefix(nm, "I") && strings.HasSuffix(nm, "Context") {
			r := nm[1 : len(nm)-len("Context")]
			return strings.ToLower(r[:1]) + r[1:]
		}
		return ""
	}
	rt := sig.Results().At(0).Type()
	name := fn.Name()
	if sl, ok := rt.Underlying().(*types.Slice); ok {
		r := ruleOf(sl.Elem())
		if r == "" || sig.Params().Len() != 0 || !strings.HasPrefix(name, "All") {
			return
		}
		if r == "#" {
			return name[3:], "alltok"
		}
		return name[3:], "all"
	}
	r := ruleOf(rt)
	if r == "" {
		return
	}
	k := ""
	if sig.Params().Len() == 1 {
		k = "i"
	}
	if r == "#" {
		return name, "tok" + k
	}
	if !strings.EqualFold(r, name) {
		return "", ""
	}
	return name, "kid" + k
}

// kids terms: the slice of all children of a kind.
var kidsDyn = map[string]types.Type{} // "kids.X" -> dynamic type of the elements

func (e *Engine) kidDyn(fn *ssa.Function, rt types.Type) types.Type {
	n, ok := types.Unalias(rt).(*types.Named)
	if !ok {
		return nil
	}
	if n.Obj().Name() == "TerminalNode" {
		if o := n.Obj().Pkg().Scope().Lookup("TerminalNodeImpl"); o != nil {
			return types.NewPointer(o.Type())
		}
		return nil
	}
	o := n.Obj().Pkg().Scope().Lookup(n.Obj().Name()[1:])
	if o == nil {
		return nil
	}
	return types.NewPointer(o.Type())
}

func (e *Engine) nodeIntrinsic(fr *Frame, st *State, fn *ssa.Function, key string, args []Val, k Cont) bool {
	switch key {
	case "antlr.(*BaseParserRuleContext).GetText":
		k.ret(st, []Val{nodeText(e.toTerm(st, args[0], fn.Signature.Recv().Type()))})
		return true
	case "antlr.(*TerminalNodeImpl).GetText":
		k.ret(st, []Val{nodeText(e.toTerm(st, args[0], fn.Signature.Recv().Type()))})
		return true
	}
	if !e.treeMode {
		return false
	}
	what, kind := ctxAccessor(fn)
	if what == "" {
		return false
	}
	e.accessorsUsed[key] = true
	recv := e.toTerm(st, args[0], fn.Signature.Recv().Type())
	if !st.nonnil[recv] {
		e.checkNonNil(st, recv, "nil tree node")
	}
	cnt := nodeCnt(recv, what)
	st.assume(tLe(tInt(0), cnt))
	rt := fn.Signature.Results().At(0).Type()
	switch kind {
	case "all", "alltok":
		et := rt.Underlying().(*types.Slice).Elem()
		dyn := e.kidDyn(fn, et)
		so := arrSort("Int", sIface)
		op := "kids." + what
		kidsDyn[op] = dyn
		d := app(so, op, recv)
		sliceOf(et)
		k.ret(st, []Val{tSliceMk(et, d, cnt, tEq(cnt, tInt(0)))})
		return true
	}
	i := tInt(0)
	if kind == "kidi" || kind == "toki" {
		i = e.toTerm(st, args[1], types.Typ[types.Int])
	}
	dyn := e.kidDyn(fn, rt)
	kid := nodeKid(recv, what, i)
	c := st.decide(tAnd(tLe(tInt(0), i), tLt(i, cnt)))
	ret := func(s *State, present bool) {
		if present {
			s.nonnil[kid] = true
			k.ret(s, []Val{&IfaceVal{dyn: dyn, val: kid}})
		} else {
			k.ret(s, []Val{nilIface()})
		}
	}
	switch c {
	case tTrue:
		ret(st, true)
	case tFalse:
		ret(st, false)
	default:
		e.paths++
		if e.paths > maxPaths {
			unsup("more than %d paths", maxPaths)
		}
		s2 := st.clone()
		st.assume(c)
		st.trace = append(st.trace, what+" present")
		ret(st, true)
		s2.assume(tNot(c))
		s2.trace = append(s2.trace, what+" absent")
		ret(s2, false)
	}
	return true
}

// ifaceIntrinsic: calls on interface values whose dynamic type is unknown.
func (e *Engine) ifaceIntrinsic(fr *Frame, st *State, it types.Type, m *types.Func, t *Term, args []Val, k Cont) (bool, bool) {
	if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
		k.ret(st, []Val{errMsg(t)})
		return true, true
	}
	if m.Name() == "GetText" && m.Type().(*types.Signature).Params().Len() == 0 {
		k.ret(st, []Val{nodeText(tData(t))})
		return true, true
	}
	return false, false
}

// standard library -----------------------------------------------------------------------

func one(k Cont, st *State, v Val) { k.ret(st, []Val{v}) }

func init() {
	reg := func(key string, f func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont)) {
		intrinsics[key] = f
	}
	str := func(e *Engine, st *State, v Val) *Term { return e.toTerm(st, v, types.Typ[types.String]) }

	reg("errors.New", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		r := e.newError(st, "errors.errorString", "errors.New")
		st.assume(tEq(errMsg(r), str(e, st, args[0])))
		x := boundVarN(sIface, "x.is")
		t := errIs(r, x)
		st.assume(mkBinder("forall", []*Term{x}, tEq(t, tEq(r, x)), [][]*Term{{t}}))
		one(k, st, r)
	})
	reg("errors.Is", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		et := types.Universe.Lookup("error").Type()
		one(k, st, errIs(e.toTerm(st, args[0], et), e.toTerm(st, args[1], et)))
	})
	reg("fmt.Errorf", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		msg, wrapped := e.format(st, args)
		r := e.newError(st, "fmt.wrapError", "fmt.Errorf")
		st.assume(tEq(errMsg(r), msg))
		x := boundVarN(sIface, "x.is")
		t := errIs(r, x)
		alts := []*Term{tEq(r, x)}
		for _, w := range wrapped {
			alts = append(alts, errIs(w, x))
		}
		st.assume(mkBinder("forall", []*Term{x}, tEq(t, tOr(alts...)), [][]*Term{{t}}))
		one(k, st, r)
	})
	reg("fmt.Sprintf", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		msg, _ := e.format(st, args)
		one(k, st, msg)
	})
	sprint := func(sep, end string) func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		return func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
			es, ok := e.explicitElems(st, args[0])
			if !ok {
				one(k, st, fresh(sStr, "sprint"))
				return
			}
			r := strLit("")
			for i, x := range es {
				if i > 0 && sep != "" {
					r = strCat(r, strLit(sep))
				}
				r = strCat(r, e.fmtArg(st, 'v', x))
				if sep == "" && i+1 < len(es) {
					// Sprint adds spaces between operands when neither is a string
					if !isStrVal(x) && !isStrVal(es[i+1]) {
						r = strCat(r, strLit(" "))
					}
				}
			}
			one(k, st, strCat(r, strLit(end)))
		}
	}
	reg("fmt.Sprint", sprint("", ""))
	reg("fmt.Sprintln", sprint(" ", "\n"))
	for _, p := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		reg(p, func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
			// output only; the results are not used by this code base
			e.unknownResult(st, fn.Signature, fn.Name(), args, k)
		})
	}
	reg("regexp.MustCompile", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		t, _ := args[0].(*Term)
		pat, ok := litOf[t]
		if !ok {
			unsup("a pattern that is not constant")
		}
		if _, err := syntax.Parse(pat, syntax.Perl); err != nil {
			unsup("a pattern that does not compile")
		}
		r := e.newRef(st, "regexp")
		e.assumeRegex(st, r, pat)
		k.ret(st, []Val{r})
	})
	reg("strings.ToLower", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		one(k, st, strFn1("str.lower", str(e, st, args[0])))
	})
	reg("strings.TrimSpace", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		one(k, st, strFn1("str.trim", str(e, st, args[0])))
	})
	reg("strings.HasPrefix", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		one(k, st, strPrefix(str(e, st, args[0]), str(e, st, args[1])))
	})
	reg("strings.EqualFold", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		// simple folding and lower-casing agree on the ASCII keywords used here (assumption)
		one(k, st, tEq(strFn1("str.lower", str(e, st, args[0])), strFn1("str.lower", str(e, st, args[1]))))
	})
	reg("strings.Contains", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		one(k, st, app("Bool", "str.contains", str(e, st, args[0]), str(e, st, args[1])))
	})
	reg("strings.TrimPrefix", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		s, p := str(e, st, args[0]), str(e, st, args[1])
		one(k, st, tIte(strPrefix(s, p), strSub(s, strLen(p), strLen(s)), s))
	})
	reg("reflect.TypeOf", func(e *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, k Cont) {
		e.unknownResult(st, fn.Signature, fn.Name(), args, k)
	})
}

func isStrVal(v Val) bool {
	iv, ok := v.(*IfaceVal)
	if !ok {
		return false
	}
	b, ok := iv.dyn.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// purePkgs: functions of these packages are functions of their arguments.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "utf8": true, "path": true, "filepath": true}

// newError makes a new error value of an external dynamic type.
func (e *Engine) newError(st *State, typ, why string) *Term {
	r := e.newRef(st, why)
	var t types.Type
	i := strings.IndexByte(typ, '.')
	for _, p := range e.typePkgs[typ[:i]] {
		if o := p.Scope().Lookup(typ[i+1:]); o != nil {
			t = types.NewPointer(o.Type())
		}
	}
	tag := tInt(9000)
	if t != nil {
		tag = typeTag(t)
	} else {
		// unexported type of a package whose scope is not loaded in full
		tag = pseudoTag(typ)
		st.assume(app("Bool", "impl.error", tag))
	}
	return tMkIface(tag, r)
}

var pseudoTags = map[string]*Term{}

func pseudoTag(n string) *Term {
	if t, ok := pseudoTags[n]; ok {
		return t
	}
	t := tInt(int64(100000 + len(pseudoTags)))
	pseudoTags[n] = t
	return t
}

// format models fmt.Errorf/Sprintf with a constant format.
func (e *Engine) format(st *State, args []Val) (*Term, []*Term) {
	f := e.toTerm(st, args[0], types.Typ[types.String])
	es, ok := e.explicitElems(st, args[1])
	lit, isLit := litOf[f]
	if !ok || !isLit {
		return fresh(sStr, "fmt"), nil
	}
	var wrapped []*Term
	r := strLit("")
	ai := 0
	for i := 0; i < len(lit); i++ {
		if lit[i] != '%' {
			j := i
			for j < len(lit) && lit[j] != '%' {
				j++
			}
			r = strCat(r, strLit(lit[i:j]))
			i = j - 1
			continue
		}
		i++
		j := i
		for j < len(lit) && strings.IndexByte("+-# 0123456789.", lit[j]) >= 0 {
			j++
		}
		if j >= len(lit) {
			return fresh(sStr, "fmt"), wrapped
		}
		verb := lit[j]
		flags := lit[i:j]
		i = j
		if verb == '%' {
			r = strCat(r, strLit("%"))
			continue
		}
		if ai >= len(es) {
			return fresh(sStr, "fmt"), wrapped
		}
		x := es[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, e.toTerm(st, x, anyType))
		}
		if flags != "" {
			r = strCat(r, app(sStr, "fmt."+mangle(flags)+string(verb), e.fmtOpaque(st, x)))
			continue
		}
		r = strCat(r, e.fmtArg(st, verb, x))
	}
	if ai < len(es) {
		return fresh(sStr, "fmt"), wrapped
	}
	return r, wrapped
}

func (e *Engine) fmtOpaque(st *State, x Val) *Term {
	if iv, ok := x.(*IfaceVal); ok {
		if p, ok := iv.val.(*PtrVal); ok {
			// formatting a local object does not make it escape
			return e.toTermQ(st, &IfaceVal{iv.dyn, p}, anyType)
		}
	}
	return e.toTerm(st, x, anyType)
}

func (e *Engine) fmtArg(st *State, verb byte, x Val) *Term {
	if iv, ok := x.(*IfaceVal); ok {
		if b, ok := iv.dyn.Underlying().(*types.Basic); ok {
			_, isErr := implementsError(iv.dyn)
			switch {
			case b.Info()&types.IsString != 0 && strings.IndexByte("svw", verb) >= 0 && !isErr && !hasStringMethod(iv.dyn):
				return e.toTerm(st, iv.val, iv.dyn)
			case b.Info()&types.IsInteger != 0 && strings.IndexByte("dv", verb) >= 0 && !isErr && !hasStringMethod(iv.dyn):
				return itoa(e.toTerm(st, iv.val, iv.dyn))
			}
		}
		if _, isErr := implementsError(iv.dyn); isErr && strings.IndexByte("svw", verb) >= 0 {
			return errMsg(e.fmtOpaque(st, x))
		}
	}
	if t, ok := x.(*Term); ok && t.sort == sIface && strings.IndexByte("svw", verb) >= 0 {
		if e.errTerms[t] {
			return errMsg(t)
		}
		return app(sStr, "fmtval", t)
	}
	return app(sStr, "fmt."+string(verb), e.fmtOpaque(st, x))
}

func itoa(n *Term) *Term {
	if v, ok := intLit(n); ok {
		return strLit(fmt.Sprint(v))
	}
	return app(sStr, "itoa", n)
}

func implementsError(t types.Type) (*types.Interface, bool) {
	i := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return i, types.Implements(t, i)
}

func hasStringMethod(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	_, ok := o.(*types.Func)
	return ok
}

func initErrAxioms() {
	x := boundVarN(sIface, "e.ax")
	t := errIs(x, x)
	addAxiom("errIs.refl", mkBinder("forall", []*Term{x}, tImp(tNot(tEq(tTag(x), tInt(0))), t), [][]*Term{{t}}), "errIs")
	y := boundVarN(sIface, "e.ay")
	n := app("Bool", "errIs", nilIface(), y)
	addAxiom("errIs.nil", mkBinder("forall", []*Term{y}, tEq(n, tEq(y, nilIface())), [][]*Term{{n}}), "errIs")
	// formatting an error value with %s prints its message
	f := app(sStr, "fmtval", x)
	_ = f
}
