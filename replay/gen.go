package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// gen writes random Kuneiform sources. Most are meant to be valid; some carry
// one or more deliberate violations, some are torn up token by token.
type gen struct {
	r   *rand.Rand
	bad float64 // chance of a violation at each opportunity
}

func (g *gen) p(x float64) bool        { return g.r.Float64() < x }
func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }
func (g *gen) viol() bool              { return g.p(g.bad) }
func (g *gen) words(s string) string   { f := strings.Fields(s); return f[g.n(len(f))] }
func pickOf[T any](g *gen, l []T) T    { return l[g.n(len(l))] }
func (g *gen) shuffle(l []string) []string {
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func (g *gen) ident() string {
	switch g.n(10) {
	case 0:
		return g.words("databases Table INT mins public_ ownerX init_ view2 selects deleted withx nota ands orx asx uses Default texts refs fkk dox Select_ into caller idx")
	case 1, 2, 3:
		return g.words("a b c d e f x y z t u id")
	}
	n := 1 + g.n(7)
	b := []byte{alphabet[g.n(len(alphabet))]}
	for i := 1; i < n; i++ {
		b = append(b, (alphabet + "0123456789_")[g.n(63)])
	}
	s := string(b)
	if keywords[s] || sqlWord.MatchString(s) {
		return s + "_"
	}
	return s
}

func (g *gen) num() string {
	return g.pick("0", "1", "2", "3", "10", "007", "255", "99999999999999999999", fmt.Sprint(g.n(1000)))
}

func (g *gen) str() string {
	var b strings.Builder
	b.WriteByte('\'')
	n := g.n(8)
	for i := 0; i < n; i++ {
		b.WriteString(g.pick("a", "b", "Z", "0", " ", ",", "(", ")", "=", "{", "}", ";", `\'`, `\\`, `\n`, "\"", "/*", "//", "é", "日", "\t", "@", "$", "#", "x=1", "%", "&", "<", ">"))
	}
	b.WriteByte('\'')
	return b.String()
}

func (g *gen) lit() string {
	if g.p(0.5) {
		return g.num()
	}
	return g.str()
}

// distinct identifiers
func (g *gen) idents(n int) (out []string) {
	seen := map[string]bool{}
	for len(out) < n {
		s := g.ident()
		if seen[s] {
			s += fmt.Sprint(len(out))
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

type gTable struct {
	name string
	cols []string
	idxs []string
}

// source returns the tokens of a source.
func (g *gen) source(maxN int) []string {
	var o []string
	w := func(s ...string) { o = append(o, s...) }
	num := func(max int) int {
		if max == 0 {
			return 0
		}
		return g.n(max + 1)
	}
	w("database", g.ident(), ";")

	exts := g.idents(num(maxN))
	var aliases []string
	for _, a := range exts {
		if g.viol() && len(aliases) > 0 {
			a = pickOf(g, aliases)
		}
		w("use", g.ident())
		if g.p(0.5) {
			w("{")
			for i, n := 0, 1+g.n(3); i < n; i++ {
				if i > 0 {
					w(",")
				}
				w(g.ident(), ":", g.lit())
			}
			w("}")
		}
		w("as", a, ";")
		aliases = append(aliases, a)
	}

	var tables []gTable
	for _, n := range g.idents(num(maxN)) {
		t := gTable{name: n, cols: g.idents(1 + g.n(4))}
		all := map[string]bool{}
		for _, c := range t.cols {
			all[c] = true
		}
		for i, k := 0, g.n(4); i < k; i++ {
			x := g.ident()
			if all[x] && !g.viol() {
				x += fmt.Sprint("i", i)
			}
			all[x] = true
			t.idxs = append(t.idxs, x)
		}
		if g.viol() && len(tables) > 0 {
			t.name = pickOf(g, tables).name
		}
		if g.viol() {
			t.cols = append(t.cols, pickOf(g, t.cols))
		}
		tables = append(tables, t)
	}
	anames := g.idents(num(maxN))
	if len(anames) > 1 && g.viol() {
		anames[len(anames)-1] = anames[0]
	}
	inits := 0
	if g.p(0.4) {
		inits = 1
	}
	if g.viol() {
		inits = 2 + g.n(2)
	}

	var items [][]string
	for i := range tables {
		items = append(items, g.table(tables, i))
	}
	callable := append([]string{}, anames...)
	for _, a := range anames {
		items = append(items, g.action(a, callable, aliases, exts))
	}
	for i := 0; i < inits; i++ {
		b := []string{"init", "(", ")", "{"}
		b = append(b, g.body(nil, callable, aliases)...)
		items = append(items, append(b, "}"))
	}
	if g.p(0.7) {
		g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	for _, it := range items {
		w(it...)
	}
	return o
}

func (g *gen) colList(cols []string, bad ...string) []string {
	n := 1 + g.n(min(3, len(cols)))
	l := append([]string{}, g.shuffle(append([]string{}, cols...))[:n]...)
	if len(bad) > 0 && g.viol() {
		l[g.n(len(l))] = pickOf(g, bad)
	}
	o := []string{"("}
	for i, c := range l {
		if i > 0 {
			o = append(o, ",")
		}
		o = append(o, c)
	}
	return append(o, ")")
}

func (g *gen) table(ts []gTable, self int) []string {
	t := ts[self]
	o := []string{"table", t.name, "{"}
	w := func(s ...string) { o = append(o, s...) }
	for i, c := range t.cols {
		if i > 0 {
			w(",")
		}
		typ := g.pick("int", "text", "blob")
		w(c, typ)
		attrs := g.shuffle(strings.Fields("primary notnull unique default min max minlen maxlen"))
		attrs = append([]string{}, attrs[:g.n(6)]...)
		if g.viol() && len(attrs) > 0 {
			attrs = append(attrs, pickOf(g, attrs))
		}
		allow := g.viol()
		for _, a := range attrs {
			if !allow && (typ == "int" && (a == "minlen" || a == "maxlen") || typ == "text" && (a == "min" || a == "max")) {
				continue
			}
			switch a {
			case "primary", "notnull", "unique":
				w(a)
			case "default":
				w(a, "(", g.lit(), ")")
			default:
				w(a, "(", g.num(), ")")
			}
		}
	}
	var rest [][]string
	unknown := []string{"nosuchcol"}
	unknown = append(unknown, t.idxs...)
	for _, u := range ts {
		unknown = append(unknown, u.cols...)
	}
	for _, x := range t.idxs {
		e := []string{",", "#" + x, g.pick("unique", "index", "primary")}
		rest = append(rest, append(e, g.colList(t.cols, unknown...)...))
	}
	for i, k := 0, g.n(3); i < k; i++ {
		par := pickOf(g, ts)
		e := []string{",", g.pick("foreign_key", "fk")}
		e = append(e, g.colList(t.cols, unknown...)...)
		e = append(e, g.pick("references", "ref"))
		bad := append(append([]string{"nosuchcol"}, par.idxs...), t.cols...)
		if g.viol() {
			e = append(e, g.pick("nosuchtable", t.cols[0]))
		} else {
			e = append(e, par.name)
		}
		e = append(e, g.colList(par.cols, bad...)...)
		acts := g.shuffle([]string{"on_update", "on_delete"})[:g.n(3)]
		if g.viol() && len(acts) > 0 {
			acts = append(append([]string{}, acts...), pickOf(g, acts))
		}
		for _, a := range acts {
			e = append(e, a)
			if g.p(0.5) {
				e = append(e, "do")
			}
			e = append(e, g.pick("no_action", "cascade", "set_null", "set_default", "restrict"))
		}
		rest = append(rest, e)
	}
	g.r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	for _, e := range rest {
		w(e...)
	}
	if g.p(0.3) {
		w(",")
	}
	w("}")
	return o
}

func (g *gen) action(name string, callable, aliases, exts []string) (o []string) {
	w := func(s ...string) { o = append(o, s...) }
	for g.p(0.3) {
		w("@"+g.ident(), "(")
		for i, n := 0, 1+g.n(3); i < n; i++ {
			if i > 0 {
				w(",")
			}
			w(g.ident(), "=", g.lit())
		}
		w(")")
	}
	w("action", name, "(")
	var params []string
	for _, x := range g.idents(g.n(4)) {
		params = append(params, "$"+x)
	}
	if g.viol() && len(params) > 0 {
		params = append(params, pickOf(g, params))
	}
	for i, x := range params {
		if i > 0 {
			w(",")
		}
		w(x)
	}
	w(")")
	var mods []string
	if g.p(0.7) {
		mods = append(mods, g.pick("public", "private"))
	}
	if g.p(0.4) {
		mods = append(mods, "view")
	}
	if g.p(0.4) {
		mods = append(mods, "owner")
	}
	if g.viol() {
		x := g.pick("public", "private", "view", "owner")
		mods = append(mods, x)
		for len(mods) < 8 && g.p(0.5) {
			mods = append(mods, g.pick("public", "private", "view", "owner", x, x))
		}
	}
	w(g.shuffle(mods)...)
	w("{")
	w(g.body(params, callable, aliases)...)
	w("}")
	return
}

var goodSQL = []string{
	"select * from tt1", "select *", "select a, b from t where a = $x", "insert into tt1 (a, b) values (1, '2')", "insert  into t values ($a, @caller)",
	"update t set a = 1, b = 'x' where c = @caller", "delete from t where a = 1", "with c as (select 1) select * from c", "SELECT id FROM t ORDER BY id LIMIT 10",
	"select\ta\nfrom t", "Delete\nfrom t ", "select count(*) from t group by a", "insert into t (a) values (1) on conflict (a) do update set a = 2",
	"select a /* c */ from t", "select upper(a) from t", "update t set a=$a where b>=2  ",
}

var badSQL = []string{
	"select * from", "insert into t", "select random()", "update set", "delete t", "select * from a cross join b", "select date('now')", "with x", "select * frm t where",
	"select * from t natural join u", "select current_time", "update t", "insert t", "select a from t where", "delete from t where a ==",
}

func (g *gen) body(params, callable, aliases []string) (o []string) {
	scope := append([]string{}, params...)
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		switch k := g.n(10); {
		case k < 3:
			s := pickOf(g, goodSQL)
			if g.viol() {
				s = pickOf(g, badSQL)
			}
			o = append(o, s, ";")
		case k < 6:
			if len(callable) == 0 && !g.viol() {
				o = append(o, pickOf(g, goodSQL), ";")
				continue
			}
			name := "nosuchaction"
			if len(callable) > 0 && !g.viol() {
				name = pickOf(g, callable)
			} else if len(aliases) > 0 && g.p(0.5) {
				name = pickOf(g, aliases)
			}
			if g.p(0.1) {
				// the engine ignores the receivers of an action call
				o = append(o, "$r", "=")
			}
			o = append(o, name)
			o = append(o, g.args(scope)...)
			o = append(o, ";")
		default:
			if len(aliases) == 0 && !g.viol() {
				o = append(o, pickOf(g, goodSQL), ";")
				continue
			}
			alias := "nosuchext"
			if len(aliases) > 0 && !g.viol() {
				alias = pickOf(g, aliases)
			} else if len(callable) > 0 && g.p(0.5) {
				alias = pickOf(g, callable)
			}
			var rec []string
			if g.p(0.7) {
				for _, x := range g.idents(1 + g.n(3)) {
					rec = append(rec, "$"+x)
				}
				if g.viol() {
					rec = append(rec, pickOf(g, rec))
				}
				if g.p(0.2) && len(scope) > 0 && !g.viol() {
					s := pickOf(g, scope)
					dup := false
					for _, x := range rec {
						dup = dup || x == s
					}
					if !dup {
						rec = append(rec, s)
					}
				}
			}
			for j, x := range rec {
				if j > 0 {
					o = append(o, ",")
				}
				o = append(o, x)
			}
			if len(rec) > 0 {
				o = append(o, "=")
			}
			o = append(o, alias, ".", g.ident())
			o = append(o, g.args(scope)...)
			o = append(o, ";")
			scope = append(scope, rec...)
		}
	}
	return
}

func (g *gen) args(scope []string) []string {
	o := []string{"("}
	if g.p(0.05) {
		o = append(o, ",")
		o = append(o, g.expr(scope, 2)...)
	}
	for i, n := 0, g.n(4); i < n; i++ {
		if len(o) > 1 {
			o = append(o, ",")
		}
		o = append(o, g.expr(scope, 3)...)
	}
	return append(o, ")")
}

func (g *gen) expr(scope []string, depth int) []string {
	if depth == 0 || g.p(0.45) {
		switch g.n(5) {
		case 0:
			return []string{g.num()}
		case 1:
			return []string{g.str()}
		case 2:
			if g.viol() {
				return []string{g.pick("@nosuchvar", "@Caller", "@caller_")}
			}
			return []string{"@caller"}
		default:
			if g.viol() {
				return []string{g.pick("$nosuchvar", "$a", "$x", "$caller")}
			}
			if len(scope) > 0 {
				return []string{pickOf(g, scope)}
			}
			return []string{g.num()}
		}
	}
	sub := func() []string { return g.expr(scope, depth-1) }
	switch g.n(5) {
	case 0:
		return append(append([]string{"("}, sub()...), ")")
	case 1:
		return append([]string{g.pick("-", "+", "not")}, sub()...)
	case 2:
		f := g.pick("lower", "upper", "abs", "length", "coalesce", "Abs", "format")
		if g.viol() {
			f = "nosuchfn"
		}
		o := []string{f, "("}
		for i, n := 0, g.n(3); i < n; i++ {
			if i > 0 {
				o = append(o, ",")
			}
			o = append(o, sub()...)
		}
		return append(o, ")")
	}
	op := g.words("* / % + - < <= > >= = != <> and or")
	if g.viol() {
		op = g.words("|| << & | ==")
	}
	return append(append(sub(), op), sub()...)
}

// render writes the tokens with random whitespace and comments between them.
func (g *gen) render(ts []string) string {
	var b strings.Builder
	style := g.n(4)
	sp := func(must bool) {
		switch {
		case style == 0:
			if must {
				b.WriteByte(' ')
			}
		case style == 1:
			b.WriteByte(' ')
		default:
			if must || g.p(0.7) {
				b.WriteString(g.pick(" ", "\n", "\t", "  ", "\r\n", " \n\t"))
			}
			if style == 3 && g.p(0.15) {
				b.WriteString(g.pick("/* c */", "// c ; }\n", "/**/", "/* a\n * b; */", "//\n", "/* 'x */"))
			}
		}
	}
	sp(false)
	for i, t := range ts {
		b.WriteString(t)
		if i+1 == len(ts) {
			break
		}
		last, next := t[len(t)-1], ts[i+1][0]
		must := wordByte(last) && wordByte(next)
		if strings.ContainsRune("|<>=!/", rune(last)) && strings.ContainsRune("|<>=*/", rune(next)) {
			must = true
		}
		if (last == '#' || last == '$' || last == '@') && isLetter(rune(next)) {
			must = true
		}
		if len(t) > 6 && sqlStart.MatchString(t) {
			continue // whitespace here would be part of the statement
		}
		sp(must)
	}
	if g.p(0.3) {
		sp(false)
	}
	return b.String()
}

// tear damages the tokens or the text.
func (g *gen) tear(ts []string) []string {
	ts = append([]string{}, ts...)
	vocab := strings.Fields(`database use as table action init public private view owner int text blob min max minlen maxlen notnull primary default unique index foreign_key fk references ref on_update on_delete do no_action cascade set_null set_default restrict not and or x y #i $v @w @caller 7 's' : ; ( { ) } , . = + - * / % ~ || < <= == <> select with`)
	for k := 1 + g.n(2); k > 0; k-- {
		if len(ts) == 0 {
			return ts
		}
		i := g.n(len(ts))
		switch g.n(4) {
		case 0:
			ts = append(ts[:i:i], ts[i+1:]...)
		case 1:
			ts = append(ts[:i+1:i+1], ts[i:]...)
		case 2:
			ts = append(append(ts[:i:i], pickOf(g, vocab)), ts[i:]...)
		case 3:
			ts[i] = pickOf(g, vocab)
		}
	}
	return ts
}

func (g *gen) tearText(s string) string {
	rs := []rune(s)
	for k := 1 + g.n(3); k > 0 && len(rs) > 0; k-- {
		i := g.n(len(rs))
		switch g.n(3) {
		case 0:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 1:
			rs = append(append(rs[:i:i], pickOf(g, []rune("aZ_0 \n\t'\\\"/*;{}(),.:=$#@!?^`[]|&<>é日\x00\v\f\u00a0\u2028%~+-"))), rs[i:]...)
		case 2:
			j := g.n(len(rs))
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	return string(rs)
}

// next returns the next random source.
func (g *gen) next() string {
	switch k := g.n(20); {
	case k < 9:
		g.bad = 0
	case k < 15:
		g.bad = 0.02
	default:
		g.bad = 0.08
	}
	ts := g.source(1 + g.n(4))
	switch g.n(12) {
	case 0:
		g.bad = 0
		return g.render(g.tear(ts))
	case 1:
		return g.tearText(g.render(ts))
	}
	return g.render(ts)
}
