package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A large array literal is one constant; what the tables of the generated
// lexer mean is decided on the numbers themselves.

type tableConst struct {
	term *Term
	data []int64
	why  string // why it is not the documented lexer
	ok   bool
	text string // an input on which it differs
}

var tables = map[string]*tableConst{}

// tableOf: an array of numbers that is filled with constants where it is made,
// and used as a slice only.
func tableOf(a *ssa.Alloc) (string, bool) {
	at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() < 200 {
		return "", false
	}
	if b, ok := at.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return "", false
	}
	data := make([]int64, at.Len())
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Slice:
			if x.Low != nil || x.High != nil || x.Max != nil {
				return "", false
			}
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			for _, r := range *x.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					v, ok := s.Val.(*ssa.Const)
					if s.Addr != ssa.Value(x) || !ok || v.Value == nil || s.Block() != a.Block() {
						return "", false
					}
					data[c.Int64()] = v.Int64()
				case *ssa.DebugRef:
				default:
					return "", false
				}
			}
		default:
			return "", false
		}
	}
	var sb strings.Builder
	for _, d := range data {
		sb.WriteString(strconv.FormatInt(d, 10))
		sb.WriteByte(' ')
	}
	k := sb.String()
	if tables[k] == nil {
		tables[k] = &tableConst{data: data}
	}
	return k, true
}

func (e *Engine) isTableAlloc(a *ssa.Alloc) (string, bool) {
	if r, ok := e.tableMemo[a]; ok {
		return r, r != ""
	}
	k, ok := tableOf(a)
	if !ok {
		k = ""
	}
	e.tableMemo[a] = k
	return k, ok
}

func (e *Engine) inTable(x *ssa.IndexAddr) bool {
	a, ok := x.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, ok = e.isTableAlloc(a)
	return ok
}

// tableVal is the slice over a table.
func (e *Engine) tableVal(st *State, k string, sl types.Type) Val {
	t := tables[k]
	if t.term == nil {
		n := 0
		for _, o := range tables {
			if o.term != nil {
				n++
			}
		}
		so := sortOf(sl)
		nm := fmt.Sprintf("table.%d", n)
		declareConst(nm, so)
		t.term = mk(so, nm)
	}
	st.assume(tEq(tSliceLen(t.term), tInt(int64(len(t.data)))))
	if _, ok := e.specs.preds["lexerTable"]; ok {
		if t.documentedLexer() {
			st.assume(app("Bool", "P.lexerTable", t.term))
		} else {
			e.notes["a table is not the documented lexer: "+t.why] = true
		}
	}
	return t.term
}

// documentedLexer decides whether the table is the documented lexer.
func (t *tableConst) documentedLexer() bool {
	if t.why == "" && !t.ok {
		spec, err := loadTokens(filepath.Join(specDir(), "tokens.txt"))
		if err != nil {
			t.why = err.Error()
			return false
		}
		l, err := decodeLexer(t.data)
		if err != nil {
			t.why = err.Error()
			return false
		}
		t.text, t.why = sameTokens(l, spec)
		t.ok = t.why == ""
	}
	return t.ok
}

// ---- the documented rules --------------------------------------------------

type tokRule struct {
	typ  int64
	name string
	prog *syntax.Prog
}

func loadTokens(file string) ([]tokRule, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []tokRule
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || strings.HasPrefix(l, "# ") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		n, err := strconv.ParseInt(f[0], 10, 64)
		if err != nil {
			return nil, err
		}
		re, err := syntax.Parse(f[2], syntax.Perl)
		if err != nil {
			return nil, err
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil, err
		}
		out = append(out, tokRule{n, f[1], p})
	}
	return out, nil
}

type specState struct{ rule, pc int }

func specClosure(rules []tokRule, in []specState) (out []specState, accept int) {
	seen := map[specState]bool{}
	accept = -1
	var visit func(s specState)
	visit = func(s specState) {
		if seen[s] {
			return
		}
		seen[s] = true
		i := rules[s.rule].prog.Inst[s.pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(specState{s.rule, int(i.Out)})
			visit(specState{s.rule, int(i.Arg)})
		case syntax.InstCapture, syntax.InstNop:
			visit(specState{s.rule, int(i.Out)})
		case syntax.InstMatch:
			if accept < 0 || s.rule < accept {
				accept = s.rule
			}
		case syntax.InstFail, syntax.InstEmptyWidth:
		default:
			out = append(out, s)
		}
	}
	for _, s := range in {
		visit(s)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].rule != out[j].rule {
			return out[i].rule < out[j].rule
		}
		return out[i].pc < out[j].pc
	})
	return
}

// ---- the table -------------------------------------------------------------

type lexEdge struct{ trg, kind, a, b, c int64 }

type lexTable struct {
	typ       []int64 // of states
	rule      []int64
	nonGreedy map[int64]bool
	start     []int64
	tok       []int64
	stop      map[int64]int64
	mode      int64
	sets      [][][2]int64
	edges     map[int64][]lexEdge
	actions   [][3]int64
}

const maxRune = 0x10FFFF

func decodeLexer(d []int64) (l *lexTable, err error) {
	defer func() {
		if r := recover(); r != nil {
			l, err = nil, fmt.Errorf("the table cannot be read: %v", r)
		}
	}()
	p := 0
	nx := func() int64 { p++; return d[p-1] }
	bad := func(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
	if v := nx(); v != 4 {
		bad("version %d", v)
	}
	if nx() != 0 {
		bad("not a lexer")
	}
	nx()
	l = &lexTable{nonGreedy: map[int64]bool{}, edges: map[int64][]lexEdge{}, stop: map[int64]int64{}}
	n := nx()
	for i := int64(0); i < n; i++ {
		t := nx()
		r := int64(-1)
		if t != 0 {
			r = nx()
			switch t {
			case 3, 4, 5, 12:
				nx()
			}
			if t < 0 || t > 12 {
				bad("state type %d", t)
			}
			if t == 7 {
				l.stop[r] = i
			}
		}
		l.typ = append(l.typ, t)
		l.rule = append(l.rule, r)
	}
	for k := nx(); k > 0; k-- {
		l.nonGreedy[nx()] = true
	}
	for k := nx(); k > 0; k-- {
		nx()
	}
	for k := nx(); k > 0; k-- {
		l.start = append(l.start, nx())
		l.tok = append(l.tok, nx())
	}
	if k := nx(); k < 1 {
		bad("no mode")
	} else {
		l.mode = nx()
		for ; k > 1; k-- {
			nx()
		}
	}
	for k := nx(); k > 0; k-- {
		m := nx()
		if nx() != 0 {
			bad("a set with the end of input")
		}
		var s [][2]int64
		for ; m > 0; m-- {
			a := nx()
			s = append(s, [2]int64{a, nx()})
		}
		l.sets = append(l.sets, s)
	}
	for k := nx(); k > 0; k-- {
		src := nx()
		e := lexEdge{nx(), nx(), nx(), nx(), nx()}
		_ = l.typ[src]
		_ = l.typ[e.trg]
		switch e.kind {
		case 1, 6, 9:
		case 2, 5:
			if e.c != 0 {
				bad("an edge with the end of input")
			}
		case 3:
			_ = l.typ[e.a]
		case 7, 8:
			_ = l.sets[e.a]
		default:
			bad("edge type %d", e.kind)
		}
		l.edges[src] = append(l.edges[src], e)
	}
	for k := nx(); k > 0; k-- {
		nx()
	}
	for k := nx(); k > 0; k-- {
		a := [3]int64{nx(), nx(), nx()}
		if a[0] != 0 && a[0] != 6 && a[0] != 7 {
			bad("lexer action %d", a[0])
		}
		l.actions = append(l.actions, a)
	}
	if p != len(d) {
		bad("%d numbers left over", len(d)-p)
	}
	return l, nil
}

// matches: the edge is taken on the character.
func (l *lexTable) matches(e lexEdge, c int64) bool {
	in := func(s [][2]int64) bool {
		for _, r := range s {
			if r[0] <= c && c <= r[1] {
				return true
			}
		}
		return false
	}
	switch e.kind {
	case 2:
		return e.a <= c && c <= e.b
	case 5:
		return c == e.a
	case 7:
		return in(l.sets[e.a])
	case 8:
		return !in(l.sets[e.a])
	case 9:
		return true
	}
	return false
}

// lexConf is a configuration of the runtime's lexer: the state, the
// alternative, the return states, whether it went through a non-greedy
// decision, the actions seen.
type lexConf struct {
	state   int64
	alt     int
	stack   string
	passed  bool
	actions string
}

type lexSet struct {
	list []lexConf
	has  map[lexConf]bool
}

func (s *lexSet) add(c lexConf) {
	if !s.has[c] {
		s.has[c] = true
		s.list = append(s.list, c)
	}
}

func (l *lexTable) move(c lexConf, to int64) lexConf {
	c.state = to
	switch l.typ[to] {
	case 3, 4, 5, 6, 10, 11:
		c.passed = c.passed || l.nonGreedy[to]
	}
	return c
}

// closure follows the runtime's closure operation.
func (l *lexTable) closure(c lexConf, set *lexSet, reached bool, depth int) bool {
	if depth > 2000 {
		panic("the closure does not end")
	}
	if l.typ[c.state] == 7 {
		if c.stack == "" {
			set.add(c)
			return true
		}
		i := strings.LastIndexByte(c.stack, ' ')
		ret, _ := strconv.ParseInt(c.stack[i+1:], 10, 64)
		n := c
		n.stack = c.stack[:max(i, 0)]
		return l.closure(l.move(n, ret), set, reached, depth+1)
	}
	eps := true
	for _, e := range l.edges[c.state] {
		if e.kind != 1 && e.kind != 3 && e.kind != 6 {
			eps = false
		}
	}
	if !eps && (!reached || !c.passed) {
		set.add(c)
	}
	for _, e := range l.edges[c.state] {
		n := c
		switch e.kind {
		case 1:
			n = l.move(c, e.trg)
		case 3:
			n = l.move(c, e.a)
			if n.stack != "" {
				n.stack += " "
			}
			n.stack += strconv.FormatInt(e.trg, 10)
		case 6:
			n = l.move(c, e.trg)
			if c.stack == "" && e.b != 0xFFFF && e.b >= 0 && e.b < int64(len(l.actions)) {
				n.actions += strconv.FormatInt(e.b, 10) + " "
			}
		default:
			continue
		}
		reached = l.closure(n, set, reached, depth+1)
	}
	return reached
}

func newLexSet() *lexSet { return &lexSet{has: map[lexConf]bool{}} }

func (l *lexTable) first() *lexSet {
	s := newLexSet()
	for i, e := range l.edges[l.mode] {
		l.closure(lexConf{state: e.trg, alt: i + 1}, s, false, 0)
	}
	return s
}

func (l *lexTable) step(s *lexSet, ch int64) *lexSet {
	out := newLexSet()
	skip := 0
	for _, c := range s.list {
		reached := c.alt == skip
		if reached && c.passed {
			continue
		}
		for _, e := range l.edges[c.state] {
			if l.matches(e, ch) && l.closure(l.move(c, e.trg), out, reached, 0) {
				skip = c.alt
			}
		}
	}
	return out
}

// accepts: the number of the token that ends here, 0 if it is skipped, -1 if none does.
func (l *lexTable) accepts(s *lexSet) int64 {
	for _, c := range s.list {
		if l.typ[c.state] != 7 {
			continue
		}
		t := l.tok[l.rule[c.state]]
		for _, f := range strings.Fields(c.actions) {
			i, _ := strconv.Atoi(f)
			switch a := l.actions[i]; a[0] {
			case 0:
				if a[1] != 0 {
					return 0
				}
			case 6:
				return 0
			case 7:
				t = a[1]
			}
		}
		return t
	}
	return -1
}

func (s *lexSet) key() string { return fmt.Sprint(s.list) }

// sameTokens: on every text both cut the same longest token, or none.
func sameTokens(l *lexTable, rules []tokRule) (text, why string) {
	defer func() {
		if r := recover(); r != nil {
			text, why = "", fmt.Sprint(r)
		}
	}()
	// one character of every class
	cut := map[int64]bool{0: true}
	for _, s := range l.sets {
		for _, r := range s {
			cut[r[0]], cut[r[1]+1] = true, true
		}
	}
	for _, es := range l.edges {
		for _, e := range es {
			switch e.kind {
			case 2:
				cut[e.a], cut[e.b+1] = true, true
			case 5:
				cut[e.a], cut[e.a+1] = true, true
			}
		}
	}
	for _, r := range rules {
		for _, i := range r.prog.Inst {
			for k, x := range i.Rune {
				cut[int64(x)] = true
				if k%2 == 1 || len(i.Rune) == 1 {
					cut[int64(x)+1] = true
				}
			}
		}
		cut['\n'], cut['\n'+1] = true, true
	}
	var chars []int64
	for c := range cut {
		if c >= 0 && c <= maxRune {
			chars = append(chars, c)
		}
	}
	sort.Slice(chars, func(i, j int) bool { return chars[i] < chars[j] })
	type pair struct {
		a    *lexSet
		b    []specState
		acc  int
		text string
	}
	var start []specState
	for i, r := range rules {
		start = append(start, specState{i, r.prog.Start})
	}
	b0, acc0 := specClosure(rules, start)
	work := []pair{{l.first(), b0, acc0, ""}}
	seen := map[string]bool{}
	name := func(t int64) string {
		switch t {
		case -1:
			return "nothing"
		case 0:
			return "skipped text"
		}
		for _, r := range rules {
			if r.typ == t {
				return r.name
			}
		}
		return fmt.Sprintf("token %d", t)
	}
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		want := int64(-1)
		if p.acc >= 0 {
			want = rules[p.acc].typ
		}
		if got := l.accepts(p.a); got != want {
			return p.text, fmt.Sprintf("the text %q is %s, documented is %s", p.text, name(got), name(want))
		}
		for _, c := range chars {
			var nb []specState
			for _, s := range p.b {
				i := rules[s.rule].prog.Inst[s.pc]
				if i.MatchRune(rune(c)) {
					nb = append(nb, specState{s.rule, int(i.Out)})
				}
			}
			na := l.step(p.a, c)
			cb, acc := specClosure(rules, nb)
			if len(na.list) == 0 && len(cb) == 0 && acc < 0 {
				continue
			}
			k := na.key() + fmt.Sprint(cb, acc)
			if seen[k] {
				continue
			}
			seen[k] = true
			work = append(work, pair{na, cb, acc, p.text + string(rune(c))})
		}
		if len(seen) > 200000 {
			return "", "too many states"
		}
	}
	return "", ""
}

// onceOf: a call of (*sync.Once).Do whose function alone writes the variable
// the Once belongs to: whether it ran now or earlier, the variable is as it
// leaves it.
func (e *Engine) onceOf(args []Val) bool {
	p, ok := args[0].(*PtrVal)
	if !ok || p.obj.global == nil {
		return false
	}
	f, ok := args[1].(*FuncVal)
	if !ok || len(f.binds) > 0 || len(f.fn.Params) > 0 {
		return false
	}
	g := p.obj.global
	why := ""
	for _, fn := range e.allFns {
		if !e.isRepoFn(fn) || fn == f.fn || why != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) && !readsOnly(g, in, f.fn) {
						why = fn.String()
					}
				}
			}
		}
	}
	if why != "" {
		e.notes[g.Name()+" is not only written by "+f.fn.Name()+": "+why] = true
	}
	return why == ""
}

func readsOnly(v ssa.Value, in ssa.Instruction, once *ssa.Function) bool {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		for _, r := range *x.Referrers() {
			if !readsOnly(x, r, once) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr, *ssa.Slice, *ssa.MapUpdate:
				return false
			case *ssa.FieldAddr:
				for _, r := range *y.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.X != ssa.Value(y) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Call:
		c := x.Call.StaticCallee()
		if c == nil || c.String() != "(*sync.Once).Do" {
			return false
		}
		a := x.Call.Args[1]
		for {
			switch y := a.(type) {
			case *ssa.ChangeType:
				a = y.X
				continue
			case *ssa.MakeClosure:
				return y.Fn == ssa.Value(once)
			case *ssa.Function:
				return y == once
			}
			return false
		}
	}
	return false
}

// tableHints: texts on which a table is not the documented lexer.
func tableHints() (out []string) {
	for _, t := range tables {
		if t.text != "" {
			out = append(out, t.text)
		}
	}
	return
}

// lexerDecl: the lexer type leaves every method of the runtime's lexer as it is.
func (e *Engine) lexerDecl(prop string, r *unitResult) {
	r.File = "declarations"
	p := e.pkgs["kfgrammar"]
	var tn *types.TypeName
	if p != nil {
		tn, _ = p.Pkg.Scope().Lookup("KuneiformLexer").(*types.TypeName)
	}
	if tn == nil {
		r.Status, r.Msg = "missing", "no type kfgrammar.KuneiformLexer"
		return
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		r.Status, r.Msg = "missing", "kfgrammar.KuneiformLexer is not a structure"
		return
	}
	var base types.Type
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			if base != nil {
				r.Status, r.Msg = "unsupported", "kfgrammar.KuneiformLexer embeds more than the runtime's lexer"
				return
			}
			base = f.Type()
		}
	}
	if base == nil || !strings.HasSuffix(base.String(), "antlr/v4.BaseLexer") {
		r.Status, r.Msg = "unsupported", "kfgrammar.KuneiformLexer is not the runtime's lexer"
		return
	}
	ms := types.NewMethodSet(base)
	own := types.NewMethodSet(types.NewPointer(tn.Type()))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj()
		if !f.Exported() {
			continue
		}
		if o := own.Lookup(p.Pkg, f.Name()); o == nil || o.Obj() != f {
			r.Status, r.Msg = "unsupported", "kfgrammar.KuneiformLexer has its own "+f.Name()
			return
		}
		n++
	}
	r.Obls = append(r.Obls, oblJSON{Name: fmt.Sprintf("kfgrammar.KuneiformLexer leaves the %d methods of the runtime's lexer as they are", n),
		Kind: "declaration", Props: []string{prop}, Status: "proved", Solver: "go/types"})
}
