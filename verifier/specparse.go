package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Contract files -----------------------------------------------------------------

type expr interface{}

type (
	eIdent struct{ name string }
	eInt   struct{ n int64 }
	eStr   struct{ s string }
	eSel   struct {
		x    expr
		name string
	}
	eIndex struct{ x, i expr }
	eSlice struct{ x, lo, hi expr }
	eCall  struct {
		fn   string
		args []expr
	}
	eType struct{ typ string }
	eUn   struct {
		op string
		x  expr
	}
	eBin struct {
		op   string
		x, y expr
	}
	eQuant struct {
		forall bool
		names  []string
		types  []string
		trig   [][]expr
		body   expr
	}
)

type clause struct {
	src   string
	x     expr
	props []string
}

type invClause struct {
	clause
	anyVar, anyType string
	must            bool // bounds the iterations: it has to hold
}

type loopSpec struct {
	over  expr
	src   string
	as    string
	outer []string
	invs  []*invClause
}

type FuncSpec struct {
	key       string
	file      string
	line      int
	params    []string
	results   []string
	requires  []*clause
	ensures   []*clause
	exsures   []*clause
	exits     []*clause // hold when the process ends inside the function
	parks     []*clause // hold when the goroutine blocks for ever inside it
	observe   []string  // calls the contract speaks about
	asserts   []*clause
	noPanic   []string // properties that need the function not to panic (default: follows exsures)
	modifies  []expr
	modSrc    []string
	freshIn   []string
	pure      bool
	inline    bool
	trusted   bool
	used      bool
	safety    []string
	frame     []string
	resultIs  map[string]expr
	shape     map[string]string // result -> dynamic type
	reveal    []string
	loops     []*loopSpec
	join      bool   // join the paths that arrive at a loop
	why       string // for trusted contracts
	bounded   string
	noverify  bool
	measure   *clause // grows before the function can come back to itself
	lets      []letDef
	nosafety  bool
	checkOnly bool
}

type letDef struct {
	name string
	x    expr
}

type predDef struct {
	name   string
	params []string
	types  []string
	ret    string // "" = bool
	body   expr   // nil: uninterpreted
	opaque bool
	src    string
}

type axDef struct {
	name string
	x    expr
	src  string
}

type SpecFile struct {
	funcs  map[string]*FuncSpec
	order  []string
	preds  map[string]*predDef
	ghosts map[string]string
	ghostO []string
	axioms []*axDef
	shared []*loopSpec // loops that may occur in any function
}

func (s *FuncSpec) allLoops() []*loopSpec { return s.loops }

func (c *clause) propsOr(e *Engine) []string {
	if len(c.props) > 0 {
		return c.props
	}
	return e.cur.allProps()
}

func (u *Unit) allProps() []string {
	if u.spec == nil {
		return u.props
	}
	m := map[string]bool{}
	add := func(ps []string) {
		for _, p := range ps {
			m[p] = true
		}
	}
	for _, c := range u.spec.ensures {
		add(c.props)
	}
	for _, c := range u.spec.exsures {
		add(c.props)
	}
	for _, c := range u.spec.exits {
		add(c.props)
	}
	for _, c := range u.spec.parks {
		add(c.props)
	}
	for _, c := range u.spec.asserts {
		add(c.props)
	}
	for _, l := range u.spec.loops {
		for _, c := range l.invs {
			add(c.props)
		}
	}
	if u.spec.measure != nil {
		add(u.spec.measure.props)
	}
	add(u.spec.safety)
	add(u.spec.frame)
	add(u.spec.noPanic)
	var r []string
	for p := range m {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// lexer ---------------------------------------------------------------------------

type tok struct {
	k    byte // 'i' ident, 'n' number, 's' string, 'o' operator, 0 eof
	s    string
	bol  bool
	line int
	pos  int
	end  int
}

func lexSpec(src, file string) []tok {
	var ts []tok
	i, line := 0, 1
	bol := true
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
			bol = true
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		st := i
		add := func(k byte, s string) {
			ts = append(ts, tok{k, s, bol, line, st, i})
			bol = false
		}
		switch {
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			for i < len(src) && (src[i] == '_' || src[i] == '$' || src[i] >= 'a' && src[i] <= 'z' || src[i] >= 'A' && src[i] <= 'Z' || src[i] >= '0' && src[i] <= '9') {
				i++
			}
			add('i', src[st:i])
		case c >= '0' && c <= '9':
			for i < len(src) && src[i] >= '0' && src[i] <= '9' {
				i++
			}
			add('n', src[st:i])
		case c == '"':
			i++
			for i < len(src) && src[i] != '"' {
				if src[i] == '\\' {
					i++
				}
				i++
			}
			i++
			s, err := strconv.Unquote(src[st:i])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			add('s', s)
		default:
			op := string(c)
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			i += len(op)
			add('o', op)
		}
	}
	ts = append(ts, tok{k: 0, bol: true, line: line, pos: len(src), end: len(src)})
	return ts
}

type specParser struct {
	file string
	src  string
	ts   []tok
	p    int
	out  *SpecFile
}

func (p *specParser) peek() tok { return p.ts[p.p] }
func (p *specParser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *specParser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *specParser) is(s string) bool {
	t := p.peek()
	return t.k != 's' && t.s == s && t.k != 0
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *specParser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

// Contracts that only concern the generated parser stand alone: the accessors
// of tree nodes and the rule functions.
func specGroup(key string) string {
	switch {
	case curProp == "C28" && strings.HasPrefix(key, "kfgrammar.(*KuneiformParser)."):
		return "progress.spec"
	case strings.HasPrefix(key, "kfgrammar.(*KuneiformParser)."):
		return "rules.spec"
	case strings.HasPrefix(key, "kfgrammar.(*") && strings.Contains(key, "Context)."):
		return "accessors.spec"
	}
	return ""
}

// curProp is the property that is checked.
var curProp string

var standAlone = map[string]bool{"progress.spec": true, "rules.spec": true, "accessors.spec": true}

// loadSpecs reads one group of contracts.
func loadSpecs(dir, group string) *SpecFile {
	sf := &SpecFile{funcs: map[string]*FuncSpec{}, preds: map[string]*predDef{}, ghosts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if n := filepath.Base(f); n != group && (group != "" || standAlone[n]) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		parseSpec(string(b), filepath.Base(f), sf)
	}
	return sf
}

func parseSpec(src, file string, sf *SpecFile) {
	p := &specParser{file: file, src: src, ts: lexSpec(src, file), out: sf}
	for p.peek().k != 0 {
		p.item()
	}
}

func (p *specParser) item() {
	switch {
	case p.accept("pred"):
		d := &predDef{name: p.ident()}
		p.params(d)
		d.opaque = p.accept("opaque")
		if p.accept("=") {
			st := p.peek().pos
			d.body = p.expr(0)
			d.src = p.since(st)
		}
		if p.out.preds[d.name] != nil {
			panic("duplicate name " + d.name + " in " + p.file)
		}
		p.out.preds[d.name] = d
	case p.accept("def"), p.accept("fun"):
		d := &predDef{name: p.ident()}
		p.params(d)
		p.expect(":")
		d.ret = p.typ()
		d.opaque = p.accept("opaque")
		if p.accept("=") {
			d.body = p.expr(0)
		}
		if p.out.preds[d.name] != nil {
			panic("duplicate name " + d.name + " in " + p.file)
		}
		p.out.preds[d.name] = d
	case p.accept("axiom"):
		nm := p.ident()
		p.expect("=")
		st := p.peek().pos
		x := p.expr(0)
		p.out.axioms = append(p.out.axioms, &axDef{nm, x, p.since(st)})
	case p.accept("ghost"):
		n := p.ident()
		p.expect(":")
		p.out.ghosts[n] = p.typ()
		p.out.ghostO = append(p.out.ghostO, n)
	case p.accept("trusted"):
		p.expect("func")
		f := p.fn()
		f.trusted = true
	case p.accept("func"):
		p.fn()
	default:
		p.fail("item expected")
	}
}

func (p *specParser) since(st int) string {
	end := p.ts[p.p-1].end
	return strings.Join(strings.Fields(p.src[st:end]), " ")
}

func (p *specParser) params(d *predDef) {
	p.expect("(")
	for !p.accept(")") {
		d.params = append(d.params, p.ident())
		p.expect(":")
		d.types = append(d.types, p.typ())
		p.accept(",")
	}
}

// typ parses a type and returns its text.
func (p *specParser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	case p.is("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case p.is("array"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "array[" + k + "]" + p.typ()
	case p.is("set"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "set[" + k + "]"
	}
	n := p.ident()
	if p.is(".") {
		p.next()
		n += "." + p.ident()
	}
	return n
}

// key: pkg.F | pkg.(*T).M | pkg.T.M | iface pkg.I.M
func (p *specParser) key() string {
	pre := ""
	if p.accept("iface") {
		pre = "iface "
	}
	k := p.ident()
	for p.accept(".") {
		if p.accept("(") {
			p.expect("*")
			k += ".(*" + p.ident() + ")"
			p.expect(")")
		} else {
			k += "." + p.ident()
		}
	}
	return pre + k
}

func (p *specParser) tags() []string {
	if !p.accept("[") {
		return nil
	}
	var r []string
	for !p.accept("]") {
		r = append(r, p.ident())
		p.accept(",")
	}
	return r
}

func (p *specParser) clause() *clause {
	tg := p.tags()
	st := p.peek().pos
	x := p.expr(0)
	return &clause{src: p.since(st), x: x, props: tg}
}

func (p *specParser) fn() *FuncSpec {
	f := &FuncSpec{file: p.file, line: p.peek().line, shape: map[string]string{}}
	f.key = p.key()
	p.expect("(")
	for !p.accept(")") {
		f.params = append(f.params, p.ident())
		p.accept(",")
	}
	if p.accept("(") {
		for !p.accept(")") {
			f.results = append(f.results, p.ident())
			p.accept(",")
		}
	}
	if _, dup := p.out.funcs[f.key]; dup {
		p.fail("duplicate contract for %s", f.key)
	}
	p.out.funcs[f.key] = f
	p.out.order = append(p.out.order, f.key)
	var lp *loopSpec
	for {
		t := p.peek()
		if t.k != 'i' || !t.bol {
			if t.k == 0 {
				return f
			}
			p.fail("clause expected")
		}
		switch t.s {
		case "requires":
			p.next()
			f.requires = append(f.requires, p.clause())
		case "ensures":
			p.next()
			f.ensures = append(f.ensures, p.clause())
		case "exsures":
			p.next()
			f.exsures = append(f.exsures, p.clause())
		case "parks":
			p.next()
			f.parks = append(f.parks, p.clause())
		case "exits":
			p.next()
			f.exits = append(f.exits, p.clause())
		case "observe":
			p.next()
			for {
				f.observe = append(f.observe, p.key())
				if !p.accept(",") {
					break
				}
			}
		case "let":
			p.next()
			n := p.ident()
			p.expect("=")
			f.lets = append(f.lets, letDef{n, p.expr(0)})
		case "nopanic":
			p.next()
			f.noPanic = p.tags()
		case "modifies":
			p.next()
			for {
				st := p.peek().pos
				if p.accept("ghost") {
					f.modifies = append(f.modifies, &eCall{"ghost", []expr{&eIdent{p.ident()}}})
				} else {
					f.modifies = append(f.modifies, p.expr(0))
				}
				f.modSrc = append(f.modSrc, p.since(st))
				if !p.accept(",") {
					break
				}
			}
		case "freshIn":
			p.next()
			for {
				f.freshIn = append(f.freshIn, p.typ())
				if !p.accept(",") {
					break
				}
			}
		case "shape":
			p.next()
			r := p.ident()
			p.expect(":")
			f.shape[r] = p.typ()
		case "result": // result r = expr: the result is exactly this value (trusted contracts)
			p.next()
			r := p.ident()
			p.expect("=")
			if f.resultIs == nil {
				f.resultIs = map[string]expr{}
			}
			f.resultIs[r] = p.expr(0)
		case "safety":
			p.next()
			f.safety = p.tags()
		case "frame":
			p.next()
			f.frame = p.tags()
		case "reveal":
			p.next()
			for {
				f.reveal = append(f.reveal, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "pure":
			p.next()
			f.pure = true
		case "inline":
			p.next()
			f.inline = true
		case "measure":
			p.next()
			c := &clause{}
			c.props = p.tags()
			st := p.peek().pos
			c.x = p.expr(0)
			c.src = p.since(st)
			f.measure = c
		case "join":
			p.next()
			f.join = true
		case "noverify":
			p.next()
			f.noverify = true
		case "why":
			p.next()
			f.why = p.next().s
		case "loop":
			p.next()
			if p.accept("any") { // every loop of the function
				lp = &loopSpec{src: "any loop"}
				if p.accept("as") {
					lp.as = p.ident()
				}
				f.loops = append(f.loops, lp)
				break
			}
			p.expect("over")
			st := p.peek().pos
			lp = &loopSpec{over: p.expr(0)}
			lp.src = p.since(st)
			if p.accept("as") {
				lp.as = p.ident()
			}
			if p.accept("inside") {
				for {
					lp.outer = append(lp.outer, p.ident())
					if !p.accept(",") {
						break
					}
				}
			}
			f.loops = append(f.loops, lp)
		case "invariant", "bounded":
			iv := &invClause{must: p.peek().s == "bounded"}
			p.next()
			iv.props = p.tags()
			if p.is("any") {
				p.next()
				iv.anyVar = p.ident()
				p.expect(":")
				iv.anyType = p.typ()
				p.expect("::")
			}
			st := p.peek().pos
			iv.x = p.expr(0)
			iv.src = p.since(st)
			if lp == nil {
				p.fail("invariant outside a loop")
			}
			lp.invs = append(lp.invs, iv)
		default:
			return f
		}
	}
}

// expressions ------------------------------------------------------------------------

var prec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "*": 7,
}

func (p *specParser) expr(min int) expr {
	x := p.unary()
	for {
		t := p.peek()
		if t.k == 0 || t.k == 's' || t.k == 'n' {
			return x
		}
		pr, ok := prec[t.s]
		if !ok || pr < min || pr == 0 {
			return x
		}
		// "*" at line start begins a deref, not used as infix there
		p.next()
		switch {
		case t.s == "==>":
			x = &eBin{t.s, x, p.expr(pr)} // right associative
		case pr == 5:
			y := p.expr(6)
			r := expr(&eBin{t.s, x, y})
			for {
				t2 := p.peek()
				if t2.k != 'o' || prec[t2.s] != 5 {
					break
				}
				p.next()
				z := p.expr(6)
				r = &eBin{"&&", r, &eBin{t2.s, y, z}}
				y = z
			}
			x = r
		default:
			x = &eBin{t.s, x, p.expr(pr + 1)}
		}
	}
}

func (p *specParser) unary() expr {
	switch {
	case p.accept("!"):
		return &eUn{"!", p.unary()}
	case p.accept("-"):
		return &eUn{"-", p.unary()}
	case p.accept("*"):
		return &eUn{"*", p.unary()}
	case p.is("forall"), p.is("exists"):
		q := &eQuant{forall: p.next().s == "forall"}
		for {
			n := []string{p.ident()}
			for p.accept(",") {
				n = append(n, p.ident())
			}
			p.expect(":")
			t := p.typ()
			for _, x := range n {
				q.names = append(q.names, x)
				q.types = append(q.types, t)
			}
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []expr
			for !p.accept("}") {
				tr = append(tr, p.expr(0))
				p.accept(",")
			}
			q.trig = append(q.trig, tr)
		}
		p.expect("::")
		q.body = p.expr(0)
		return q
	}
	x := p.primary()
	for {
		switch {
		case p.is(".") && !p.peek().bol:
			p.next()
			x = &eSel{x, p.ident()}
		case p.is("[") && !p.peek().bol:
			p.next()
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				x = &eSlice{x, nil, hi}
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				var hi expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				x = &eSlice{x, i, hi}
				continue
			}
			p.expect("]")
			x = &eIndex{x, i}
		default:
			return x
		}
	}
}

func (p *specParser) primary() expr {
	t := p.next()
	switch t.k {
	case 'n':
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return &eInt{n}
	case 's':
		return &eStr{t.s}
	case 'i':
		if p.is("(") && !p.peek().bol {
			p.next()
			c := &eCall{fn: t.s}
			for !p.accept(")") {
				if (t.s == "isType" || t.s == "as" || t.s == "typetag") && len(c.args) == 1 || t.s == "count" && len(c.args) == 2 || t.s == "zero" {
					c.args = append(c.args, &eType{p.typ()})
				} else {
					c.args = append(c.args, p.expr(0))
				}
				p.accept(",")
			}
			return c
		}
		return &eIdent{t.s}
	case 'o':
		if t.s == "(" {
			x := p.expr(0)
			p.expect(")")
			return x
		}
	}
	p.p--
	p.fail("expression expected")
	return nil
}
