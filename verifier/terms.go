package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.  Sorts are SMT-LIB sort strings.
type Term struct {
	op   string // function symbol, literal, "forall", "exists"
	args []*Term
	sort string
	id   int
	// binder
	vars []*Term
	pats [][]*Term
	bv   bool // bound variable
	free bool // contains bound variables free (cached)
	str  string
}

var termTab = map[string]*Term{}
var termList []*Term

// termLock is unnecessary: symbolic execution is single threaded per process;
// only printed scripts are handed to solver goroutines.

func mk(sort, op string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: sort, id: len(termList)}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func mkBinder(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if len(vars) == 0 {
		return body
	}
	if body == tTrue || body == tFalse {
		return body
	}
	var b strings.Builder
	b.WriteString(op)
	for _, v := range vars {
		fmt.Fprintf(&b, "|%d", v.id)
	}
	fmt.Fprintf(&b, ":%d", body.id)
	for _, p := range pats {
		b.WriteString("!")
		for _, x := range p {
			fmt.Fprintf(&b, ",%d", x.id)
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: []*Term{body}, sort: "Bool", id: len(termList), vars: vars, pats: pats}
	fv := freeVars(body)
	for _, v := range vars {
		delete(fv, v)
	}
	t.free = len(fv) > 0
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func freeVars(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.free {
			return
		}
		if t.bv {
			if !bound[t] {
				r[t] = true
			}
			return
		}
		if t.vars != nil {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.vars {
				nb[v] = true
			}
			bound = nb
		}
		for _, a := range t.args {
			walk(a, bound)
		}
	}
	walk(t, map[*Term]bool{})
	return r
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var s string
	switch {
	case t.vars != nil:
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for i, v := range t.vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + v.op + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! " + t.args[0].String())
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(x.String())
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(t.args[0].String())
		}
		b.WriteString(")")
		s = b.String()
	case len(t.args) == 0:
		s = t.op
	case t.op == "constarr":
		s = "((as const " + t.sort + ") " + t.args[0].String() + ")"
	default:
		var b strings.Builder
		b.WriteString("(" + t.op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(a.String())
		}
		b.WriteString(")")
		s = b.String()
	}
	if len(s) < 4000 {
		t.str = s
	}
	return s
}

var (
	tTrue  *Term
	tFalse *Term
)

func init() {
	tTrue = mk("Bool", "true")
	tFalse = mk("Bool", "false")
}

func tInt(n int64) *Term {
	if n < 0 {
		return mk("Int", fmt.Sprintf("(- %d)", -n))
	}
	return mk("Int", strconv.FormatInt(n, 10))
}

func intLit(t *Term) (int64, bool) {
	if t.sort != "Int" || len(t.args) != 0 {
		return 0, false
	}
	if strings.HasPrefix(t.op, "(- ") {
		n, err := strconv.ParseInt(t.op[3:len(t.op)-1], 10, 64)
		return -n, err == nil
	}
	n, err := strconv.ParseInt(t.op, 10, 64)
	return n, err == nil
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("Bool", "not", a)
}

func tAnd(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tTrue {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		l := []*Term{a}
		if a.op == "and" {
			l = a.args
		}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
	}
	for _, x := range r {
		if x.op == "not" && seen[x.args[0]] {
			return tFalse
		}
	}
	switch len(r) {
	case 0:
		return tTrue
	case 1:
		return r[0]
	}
	return mk("Bool", "and", r...)
}

func tOr(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		l := []*Term{a}
		if a.op == "or" {
			l = a.args
		}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
	}
	for _, x := range r {
		if x.op == "not" && seen[x.args[0]] {
			return tTrue
		}
	}
	switch len(r) {
	case 0:
		return tFalse
	case 1:
		return r[0]
	}
	return mk("Bool", "or", r...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	if a == b {
		return tTrue
	}
	return mk("Bool", "=>", a, b)
}

func tIff(a, b *Term) *Term { return tEq(a, b) }

func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if b == tTrue {
			return tImp(c, a)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
	}
	return mk(a.sort, "ite", c, a, b)
}

// distinctConsts holds symbols known to denote pairwise different values
// (string literals, type tags, ...), grouped by sort.
var distinctConsts = map[*Term]bool{}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(unsupported{fmt.Sprintf("equality between sorts %s and %s: %s / %s", a.sort, b.sort, a, b)})
	}
	if distinctConsts[a] && distinctConsts[b] {
		return tFalse
	}
	if x, ok := intLit(a); ok {
		if y, ok := intLit(b); ok {
			return boolT(x == y)
		}
		if x == 0 {
			if r := bitTest(b); r != nil {
				return r
			}
		}
	} else if y, ok := intLit(b); ok && y == 0 {
		if r := bitTest(a); r != nil {
			return r
		}
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
		if tNot(a) == b {
			return tFalse
		}
	}
	if a.sort == "Int" {
		// linear difference
		la, lb := linOf(a), linOf(b)
		d := la.sub(lb)
		if len(d.m) == 0 {
			return boolT(d.c == 0)
		}
	}
	// constructors
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tEq(a.args[i], b.args[i]))
		}
		return tAnd(cs...)
	}
	// ite against constants: push in when both branches decide
	for k := 0; k < 2; k++ {
		x, y := a, b
		if k == 1 {
			x, y = b, a
		}
		if x.op == "ite" && (isCtor(y) || distinctConsts[y] || isLit(y)) {
			p, q := tEq(x.args[1], y), tEq(x.args[2], y)
			return tIte(x.args[0], p, q)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("Bool", "=", a, b)
}

func isLit(t *Term) bool { _, ok := intLit(t); return ok }

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var ctorSyms = map[string]bool{}

func isCtor(t *Term) bool { return ctorSyms[t.op] }

// linear forms ------------------------------------------------------------

type lin struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) lin {
	if n, ok := intLit(t); ok {
		return lin{map[*Term]int64{}, n}
	}
	switch t.op {
	case "+":
		r := lin{map[*Term]int64{}, 0}
		for _, a := range t.args {
			r = r.add(linOf(a))
		}
		return r
	case "-":
		if len(t.args) == 2 {
			return linOf(t.args[0]).sub(linOf(t.args[1]))
		}
	case "*":
		if n, ok := intLit(t.args[0]); ok {
			return linOf(t.args[1]).scale(n)
		}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}
func (a lin) scale(n int64) lin {
	r := lin{map[*Term]int64{}, a.c * n}
	if n != 0 {
		for k, v := range a.m {
			r.m[k] = v * n
		}
	}
	return r
}
func (a lin) add(b lin) lin {
	r := lin{map[*Term]int64{}, a.c + b.c}
	for k, v := range a.m {
		r.m[k] = v
	}
	for k, v := range b.m {
		r.m[k] += v
		if r.m[k] == 0 {
			delete(r.m, k)
		}
	}
	return r
}
func (a lin) sub(b lin) lin { return a.add(b.scale(-1)) }
func (a lin) term() *Term {
	var ks []*Term
	for k := range a.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	for _, k := range ks {
		if a.m[k] == 1 {
			as = append(as, k)
		} else {
			as = append(as, mk("Int", "*", tInt(a.m[k]), k))
		}
	}
	if a.c != 0 || len(as) == 0 {
		as = append(as, tInt(a.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk("Int", "+", as...)
}

func tAdd(a, b *Term) *Term { return linOf(a).add(linOf(b)).term() }
func tSub(a, b *Term) *Term { return linOf(a).sub(linOf(b)).term() }
func tMul(a, b *Term) *Term {
	if n, ok := intLit(a); ok {
		return linOf(b).scale(n).term()
	}
	if n, ok := intLit(b); ok {
		return linOf(a).scale(n).term()
	}
	return mk("Int", "*", a, b)
}

func tLt(a, b *Term) *Term {
	d := linOf(a).sub(linOf(b))
	if len(d.m) == 0 {
		return boolT(d.c < 0)
	}
	return mk("Bool", "<", a, b)
}
func tLe(a, b *Term) *Term {
	d := linOf(a).sub(linOf(b))
	if len(d.m) == 0 {
		return boolT(d.c <= 0)
	}
	return mk("Bool", "<=", a, b)
}

// arrays --------------------------------------------------------------------

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func arrElem(s string) string {
	// "(Array I E)"
	parts := splitSort(s)
	return parts[2]
}
func arrIdx(s string) string { return splitSort(s)[1] }

func splitSort(s string) []string {
	s = s[1 : len(s)-1]
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func tSelect(a, i *Term) *Term {
	for a.op == "store" {
		e := tEq(a.args[1], i)
		if e == tTrue {
			return a.args[2]
		}
		if e == tFalse || knownNeq(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if strings.HasPrefix(a.op, "kids.") && kidsDyn[a.op] != nil {
		return tMkIface(typeTag(kidsDyn[a.op]), nodeKid(a.args[0], a.op[5:], i))
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") {
		return tIte(a.args[0], tSelect(a.args[1], i), tSelect(a.args[2], i))
	}
	return mk(arrElem(a.sort), "select", a, i)
}

// knownNeq: cheap syntactic disequality for allocation references.
func knownNeq(a, b *Term) bool { return false }

func tStore(a, i, v *Term) *Term {
	if arrElem(a.sort) != v.sort {
		panic(unsupported{fmt.Sprintf("store of %s into %s", v.sort, a.sort)})
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(a.sort, "store", a, i, v)
}

func tConstArr(sort string, v *Term) *Term { return mk(sort, "constarr", v) }

// substitution --------------------------------------------------------------

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = go_(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if t.vars != nil {
			var np [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					y := go_(x)
					if y != x {
						ch = true
					}
					q = append(q, y)
				}
				np = append(np, q)
			}
			if ch {
				r = mkBinder(t.op, t.vars, na[0], np)
			}
		} else if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return go_(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return tNot(a[0])
	case "and":
		return tAnd(a...)
	case "or":
		return tOr(a...)
	case "=>":
		return tImp(a[0], a[1])
	case "=":
		return tEq(a[0], a[1])
	case "ite":
		return tIte(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = tAdd(r, x)
		}
		return r
	case "*":
		return tMul(a[0], a[1])
	case "<":
		return tLt(a[0], a[1])
	case "<=":
		return tLe(a[0], a[1])
	case "select":
		return tSelect(a[0], a[1])
	case "store":
		return tStore(a[0], a[1], a[2])
	}
	if f, ok := selectorOf[t.op]; ok && isCtor(a[0]) && a[0].op == f.ctor {
		return a[0].args[f.idx]
	}
	return mk(t.sort, t.op, a...)
}

type selInfo struct {
	ctor string
	idx  int
}

var selectorOf = map[string]selInfo{}

// tSel applies datatype selector sel (declared with sort) to t.
func tSel(sort, sel string, t *Term) *Term {
	f := selectorOf[sel]
	if t.op == f.ctor {
		return t.args[f.idx]
	}
	if t.op == "ite" {
		return tIte(t.args[0], tSel(sort, sel, t.args[1]), tSel(sort, sel, t.args[2]))
	}
	return mk(sort, sel, t)
}

// fresh symbols and bound variables
var symCount = map[string]int{}

func freshName(base string) string {
	base = mangle(base)
	symCount[base]++
	return fmt.Sprintf("%s!%d", base, symCount[base])
}

func fresh(sort, base string) *Term {
	n := freshName(base)
	declareConst(n, sort)
	return mk(sort, n)
}

func boundVar(sort, base string) *Term {
	n := "?" + freshName(base)
	t := mk(sort, n)
	t.bv = true
	t.free = true
	return t
}

func mangle(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '@':
			b.WriteByte(c)
		case c == '*':
			b.WriteString("p.")
		case c == '[':
			b.WriteString("<")
		case c == ']':
			b.WriteString(">")
		case c == '/':
			b.WriteString(".")
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// bitTest rewrites "a == 0" for the two tests of the "x in a set of small
// numbers" idiom: x & -(2^k) == 0 is 0 <= x < 2^k, and (1<<x) & C == 0 is
// "no i with bit i of C set equals x" (a shift count is not negative: that
// would have panicked).
func bitTest(a *Term) *Term {
	if a.op != "bv.and" {
		return nil
	}
	x, y := a.args[0], a.args[1]
	if _, ok := intLit(y); !ok {
		x, y = y, x
	}
	c, ok := intLit(y)
	if !ok {
		return nil
	}
	if x.op == "bv.shl" && x.args[0] == tInt(1) {
		var r []*Term
		for i := int64(0); i < 64; i++ {
			if uint64(c)>>uint(i)&1 == 1 {
				r = append(r, tEq(x.args[1], tInt(i)))
			}
		}
		return tNot(tOr(r...))
	}
	if m := -c; m > 0 && m&(m-1) == 0 {
		return tAnd(tLe(tInt(0), x), tLt(x, tInt(m)))
	}
	return nil
}
