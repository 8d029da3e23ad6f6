package main

// An independent reading of the Kuneiform language: its own lexer, parser and
// rule checker, sharing no code with the packages under test (it only fills in
// their public schema structures to state the expected result).

import (
	"regexp"
	"strings"

	actparser "github.com/kwilteam/kwil-db/parse/action"
	sqlparser "github.com/kwilteam/kwil-db/parse/sql"

	"github.com/kwilteam/kuneiform/schema"
)

type tok struct {
	kind string // symbol or keyword text itself, or ID IDX VAR AT NUM STR SQL SQLKW
	text string
	pos  int
}

var keywords = map[string]bool{}
var symbols []string

func init() {
	for _, k := range strings.Fields(`database use as table action init public private view owner int text blob min max minlen maxlen
		notnull primary default unique index foreign_key fk references ref on_update on_delete do no_action cascade set_null
		set_default restrict not and or`) {
		keywords[k] = true
	}
	symbols = strings.Fields(`|| << >> == <= >= != <> : ; ( { ) } , $ # @ . = + - * / % ~ & | < >`)
}

var sqlStart = regexp.MustCompile(`^(?i:select|insert|update|delete|with)[ \t\r\n][^;}]+`)
var sqlWord = regexp.MustCompile(`^(?i:select|insert|update|delete|with)$`)

func isLetter(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDigit(r rune) bool  { return r >= '0' && r <= '9' }
func isIdent(r rune) bool  { return isLetter(r) || isDigit(r) || r == '_' }

// lex splits the text into tokens; ok is false if some character belongs to none.
func lex(text string) (out []tok, ok bool) {
	rs := []rune(text)
	ok = true
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
			continue
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' && rs[i] != '\r' {
				i++
			}
			continue
		case c == '/' && i+1 < len(rs) && rs[i+1] == '*':
			j := i + 2
			for j+1 < len(rs) && !(rs[j] == '*' && rs[j+1] == '/') {
				j++
			}
			if j+1 < len(rs) {
				i = j + 2
				continue
			}
		}
		ident := func(j int) int {
			if j < len(rs) && isLetter(rs[j]) {
				for j < len(rs) && isIdent(rs[j]) {
					j++
				}
			}
			return j
		}
		if isLetter(c) {
			rest := string(rs[i:])
			j := ident(i)
			w := string(rs[i:j])
			if sqlWord.MatchString(w) {
				if m := sqlStart.FindString(rest); m != "" {
					out = append(out, tok{"SQL", m, i})
					i += len([]rune(m))
					continue
				}
				out = append(out, tok{"SQLKW", w, i})
			} else if keywords[w] {
				out = append(out, tok{w, w, i})
			} else {
				out = append(out, tok{"ID", w, i})
			}
			i = j
			continue
		}
		if isDigit(c) {
			j := i
			for j < len(rs) && isDigit(rs[j]) {
				j++
			}
			out = append(out, tok{"NUM", string(rs[i:j]), i})
			i = j
			continue
		}
		if c == '\'' {
			j := i + 1
			good := false
			for j < len(rs) {
				if rs[j] == '\'' {
					good = true
					break
				}
				if rs[j] == '\\' {
					j += 2
					continue
				}
				if rs[j] == '\n' || rs[j] == '\r' {
					break
				}
				j++
			}
			if good {
				out = append(out, tok{"STR", string(rs[i : j+1]), i})
				i = j + 1
				continue
			}
			ok = false
			i++
			continue
		}
		if c == '#' || c == '$' || c == '@' {
			if j := ident(i + 1); j > i+1 {
				k := map[rune]string{'#': "IDX", '$': "VAR", '@': "AT"}[c]
				out = append(out, tok{k, string(rs[i:j]), i})
				i = j
				continue
			}
		}
		found := false
		for _, s := range symbols {
			if strings.HasPrefix(string(rs[i:min(len(rs), i+2)]), s) {
				out = append(out, tok{s, s, i})
				i += len(s)
				found = true
				break
			}
		}
		if !found {
			ok = false
			i++
		}
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type rStmt struct {
	sql       bool
	text      string // normalised
	receivers []string
	ext       string
	method    string
	args      []tok // the tokens between the parentheses
}

type rAction struct {
	name   string
	anns   []rAnn
	params []string
	mods   []string
	stmts  []rStmt
	isInit bool
}

type rAnn struct {
	target string
	attrs  [][2]string
	text   string
}

type rCol struct {
	name, typ string
	attrs     [][2]string // keyword, value
}

type rIdx struct {
	name, kind string
	cols       []string
}

type rFK struct {
	child   []string
	parent  string
	pcols   []string
	actions [][2]string // on_update/on_delete, reaction
}

type rTable struct {
	name string
	cols []rCol
	idxs []rIdx
	fks  []rFK
}

type rExt struct {
	name, alias string
	config      [][2]string
	hasConfig   bool
}

type rSource struct {
	db      string
	exts    []rExt
	tables  []rTable
	actions []rAction
	inits   []rAction
}

type syntaxErr struct{}

type rp struct {
	ts []tok
	i  int
}

func (p *rp) peek() string {
	if p.i < len(p.ts) {
		return p.ts[p.i].kind
	}
	return "EOF"
}

func (p *rp) at(ks ...string) bool {
	k := p.peek()
	for _, x := range ks {
		if k == x {
			return true
		}
	}
	return false
}

func (p *rp) take(ks ...string) string {
	if !p.at(ks...) {
		panic(syntaxErr{})
	}
	p.i++
	return p.ts[p.i-1].text
}

func (p *rp) opt(k string) bool {
	if p.at(k) {
		p.i++
		return true
	}
	return false
}

// parse reads a complete source; nil if it is not one.
func refParse(ts []tok) (src *rSource) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(syntaxErr); !ok {
				panic(r)
			}
			src = nil
		}
	}()
	p := &rp{ts: ts}
	s := &rSource{}
	p.take("database")
	s.db = p.take("ID")
	p.take(";")
	for p.opt("use") {
		e := rExt{name: p.take("ID")}
		if p.opt("{") {
			e.hasConfig = true
			for {
				k := p.take("ID")
				p.take(":")
				e.config = append(e.config, [2]string{k, p.take("NUM", "STR")})
				if !p.opt(",") {
					break
				}
			}
			p.take("}")
		}
		p.take("as")
		e.alias = p.take("ID")
		p.take(";")
		s.exts = append(s.exts, e)
	}
	for !p.at("EOF") {
		switch {
		case p.opt("table"):
			s.tables = append(s.tables, p.table())
		case p.at("action", "AT"):
			s.actions = append(s.actions, p.action())
		case p.opt("init"):
			p.take("(")
			p.take(")")
			p.take("{")
			a := rAction{name: "init", isInit: true, stmts: p.stmts()}
			p.take("}")
			s.inits = append(s.inits, a)
		default:
			panic(syntaxErr{})
		}
	}
	return s
}

func (p *rp) table() (t rTable) {
	t.name = p.take("ID")
	p.take("{")
	t.cols = append(t.cols, p.col())
	for p.at(",") && p.i+1 < len(p.ts) && p.ts[p.i+1].kind == "ID" {
		p.i++
		t.cols = append(t.cols, p.col())
	}
	for p.at(",") && p.i+1 < len(p.ts) {
		switch p.ts[p.i+1].kind {
		case "IDX":
			p.i++
			x := rIdx{name: p.take("IDX")[1:]}
			x.kind = p.take("unique", "index", "primary")
			x.cols = p.names()
			t.idxs = append(t.idxs, x)
			continue
		case "foreign_key", "fk":
			p.i += 2
			f := rFK{child: p.names()}
			p.take("references", "ref")
			f.parent = p.take("ID")
			f.pcols = p.names()
			for p.at("on_update", "on_delete") {
				on := p.take("on_update", "on_delete")
				p.opt("do")
				f.actions = append(f.actions, [2]string{on, p.take("no_action", "cascade", "set_null", "set_default", "restrict")})
			}
			t.fks = append(t.fks, f)
			continue
		}
		break
	}
	p.opt(",")
	p.take("}")
	return
}

func (p *rp) names() (out []string) {
	p.take("(")
	for {
		out = append(out, p.take("ID"))
		if !p.opt(",") {
			break
		}
	}
	p.take(")")
	return
}

func (p *rp) col() (c rCol) {
	c.name = p.take("ID")
	c.typ = p.take("int", "text", "blob")
	for {
		switch {
		case p.at("primary", "notnull", "unique"):
			c.attrs = append(c.attrs, [2]string{p.take("primary", "notnull", "unique"), ""})
		case p.opt("default"):
			p.take("(")
			c.attrs = append(c.attrs, [2]string{"default", p.take("NUM", "STR")})
			p.take(")")
		case p.at("min", "max", "minlen", "maxlen"):
			k := p.take("min", "max", "minlen", "maxlen")
			p.take("(")
			c.attrs = append(c.attrs, [2]string{k, p.take("NUM")})
			p.take(")")
		default:
			return
		}
	}
}

func (p *rp) action() (a rAction) {
	for p.at("AT") {
		an := rAnn{target: p.take("AT")[1:]}
		p.take("(")
		for {
			k := p.take("ID")
			p.take("=")
			an.attrs = append(an.attrs, [2]string{k, p.take("NUM", "STR")})
			if !p.opt(",") {
				break
			}
		}
		p.take(")")
		an.text = an.target + "("
		for i, kv := range an.attrs {
			if i > 0 {
				an.text += ","
			}
			an.text += kv[0] + "=" + kv[1]
		}
		an.text += ")"
		a.anns = append(a.anns, an)
	}
	p.take("action")
	a.name = p.take("ID")
	p.take("(")
	if p.at("VAR") {
		a.params = append(a.params, p.take("VAR"))
	}
	for p.opt(",") {
		a.params = append(a.params, p.take("VAR"))
	}
	p.take(")")
	for p.at("public", "private", "view", "owner") {
		a.mods = append(a.mods, p.take("public", "private", "view", "owner"))
	}
	p.take("{")
	a.stmts = p.stmts()
	p.take("}")
	return
}

func (p *rp) stmts() (out []rStmt) {
	for {
		out = append(out, p.stmt())
		if p.at("}") {
			return
		}
	}
}

// joinTokens is the text of a call statement: its tokens without the whitespace
// between them, except where a word would run into the next one.
func joinTokens(ts []tok) string {
	var b []byte
	for _, t := range ts {
		if t.text != "" && wordByte(t.text[0]) {
			j := len(b)
			letters := false
			for j > 0 && wordByte(b[j-1]) {
				j--
				if b[j] < '0' || b[j] > '9' {
					letters = true
				}
			}
			if letters {
				b = append(b, ' ')
			}
		}
		b = append(b, t.text...)
	}
	return string(b)
}

func wordByte(c byte) bool { return isIdent(rune(c)) }

func (p *rp) stmt() (s rStmt) {
	start := p.i
	if p.at("SQL") {
		s.sql = true
		t := p.take("SQL")
		p.take(";")
		s.text = strings.TrimSpace(t + ";")
		return
	}
	if p.at("VAR") {
		for {
			s.receivers = append(s.receivers, p.take("VAR"))
			if !p.opt(",") {
				break
			}
		}
		p.take("=")
	}
	n := p.take("ID")
	if p.opt(".") {
		s.ext = n
		s.method = p.take("ID")
	} else {
		s.method = n
	}
	p.take("(")
	a0 := p.i
	if !p.at(")", ",") {
		p.expr()
	}
	for p.opt(",") {
		p.expr()
	}
	s.args = p.ts[a0:p.i]
	p.take(")")
	p.take(";")
	s.text = joinTokens(p.ts[start:p.i])
	return
}

func (p *rp) expr() {
	p.operand()
	for p.at("||", "*", "/", "%", "+", "-", "<<", ">>", "&", "|", "<", "<=", ">", ">=", "=", "==", "!=", "<>", "and", "or") {
		p.i++
		p.operand()
	}
}

func (p *rp) operand() {
	switch {
	case p.at("NUM", "STR", "VAR", "AT"):
		p.i++
	case p.at("+", "-", "~", "not"):
		p.i++
		p.operand()
	case p.opt("("):
		p.expr()
		p.take(")")
	case p.at("ID"):
		p.i++
		p.take("(")
		if !p.opt("*") && !p.at(")") {
			p.expr()
			for p.opt(",") {
				p.expr()
			}
		}
		p.take(")")
	default:
		panic(syntaxErr{})
	}
}

// expected is the schema the source stands for.
func (s *rSource) expected() *schema.Schema {
	out := &schema.Schema{Name: s.db}
	for _, e := range s.exts {
		x := schema.Extension{Name: e.name, Alias: e.alias}
		for _, kv := range e.config {
			x.Config = append(x.Config, schema.ExtensionConfig{Argument: kv[0], Value: kv[1]})
		}
		out.Extensions = append(out.Extensions, x)
	}
	attr := map[string]string{"primary": "primary_key", "unique": "unique", "notnull": "not_null", "default": "default", "min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"}
	idx := map[string]string{"index": "btree", "unique": "unique_btree", "primary": "primary"}
	do := map[string]string{"no_action": "NO ACTION", "restrict": "RESTRICT", "set_null": "SET NULL", "set_default": "SET DEFAULT", "cascade": "CASCADE"}
	on := map[string]string{"on_update": "UPDATE", "on_delete": "DELETE"}
	for _, t := range s.tables {
		x := schema.Table{Name: t.name}
		for _, c := range t.cols {
			y := schema.Column{Name: c.name, Type: schema.ColumnType(c.typ)}
			for _, a := range c.attrs {
				z := schema.Attribute{Type: schema.AttributeType(attr[a[0]])}
				if a[1] != "" {
					z.Value = a[1]
				}
				y.Attributes = append(y.Attributes, z)
			}
			x.Columns = append(x.Columns, y)
		}
		for _, i := range t.idxs {
			x.Indexes = append(x.Indexes, schema.Index{Name: i.name, Type: schema.IndexType(idx[i.kind]), Columns: i.cols})
		}
		for _, f := range t.fks {
			y := schema.ForeignKey{ChildKeys: f.child, ParentTable: f.parent, ParentKeys: f.pcols}
			for _, a := range f.actions {
				y.Actions = append(y.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(on[a[0]]), Do: schema.ForeignKeyActionDo(do[a[1]])})
			}
			x.ForeignKeys = append(x.ForeignKeys, y)
		}
		out.Tables = append(out.Tables, x)
	}
	for _, a := range append(append([]rAction{}, s.actions...), s.inits...) {
		x := schema.Action{Name: a.name, Inputs: a.params, Mutability: "update"}
		for _, an := range a.anns {
			x.Annotations = append(x.Annotations, an.text)
		}
		for _, m := range a.mods {
			switch m {
			case "public":
				x.Public = true
			case "view":
				x.Mutability = "view"
			case "owner":
				x.Auxiliaries = append(x.Auxiliaries, "owner")
			}
		}
		for _, st := range a.stmts {
			x.Statements = append(x.Statements, st.text)
		}
		out.Actions = append(out.Actions, x)
	}
	return out
}

// broken is the set of rules the source breaks, as rule name -> properties it belongs to.
type breach struct {
	rule  string // name of the sentinel, or "statement"
	prop  string
	where string
}

var sentinels = map[string]error{
	"ErrMultiInit": schema.ErrMultiInit, "ErrActionVisibilityAlreadySet": schema.ErrActionVisibilityAlreadySet,
	"ErrActionMutabilityAlreadySet": schema.ErrActionMutabilityAlreadySet, "ErrActionAuxiliaryAlreadySet": schema.ErrActionAuxiliaryAlreadySet,
	"ErrAttributeNotAllow": schema.ErrAttributeNotAllow, "ErrDuplicateTable": schema.ErrDuplicateTable, "ErrDuplicateExtension": schema.ErrDuplicateExtension,
	"ErrDuplicateColumn": schema.ErrDuplicateColumn, "ErrDuplicateAttribute": schema.ErrDuplicateAttribute, "ErrDuplicateIndex": schema.ErrDuplicateIndex,
	"ErrDuplicateAction": schema.ErrDuplicateAction, "ErrDuplicateParam": schema.ErrDuplicateParam, "ErrDupFKAction": schema.ErrDupFKAction,
	"ErrDuplicateVariable": schema.ErrDuplicateVariable, "ErrTableNotFound": schema.ErrTableNotFound, "ErrColumnNotFound": schema.ErrColumnNotFound,
	"ErrActionNotFound": schema.ErrActionNotFound, "ErrVariableNotFound": schema.ErrVariableNotFound, "ErrExtensionNotFound": schema.ErrExtensionNotFound,
	"ErrBlockVarNotFound": schema.ErrBlockVarNotFound, "ErrNotSupportColumnType": schema.ErrNotSupportColumnType,
}

func (s *rSource) breaches() (out []breach) {
	add := func(rule, prop, where string) { out = append(out, breach{rule, prop, where}) }
	seen := func() func(string) bool {
		m := map[string]bool{}
		return func(k string) bool {
			if m[k] {
				return true
			}
			m[k] = true
			return false
		}
	}
	aliases := map[string]bool{}
	for _, e := range s.exts {
		if aliases[e.alias] {
			add("ErrDuplicateExtension", "C01", e.alias)
		}
		aliases[e.alias] = true
	}
	cols := map[string]map[string]bool{}
	for _, t := range s.tables {
		if cols[t.name] != nil {
			add("ErrDuplicateTable", "C01", t.name)
			continue
		}
		cols[t.name] = map[string]bool{}
		for _, c := range t.cols {
			cols[t.name][c.name] = true
		}
	}
	for _, t := range s.tables {
		own := map[string]bool{}
		names := seen()
		for _, c := range t.cols {
			if names(c.name) {
				add("ErrDuplicateColumn", "C01", t.name+"."+c.name)
			}
			own[c.name] = true
			at := seen()
			for _, a := range c.attrs {
				if at(a[0]) {
					add("ErrDuplicateAttribute", "C01", t.name+"."+c.name+" "+a[0])
				}
				if c.typ == "int" && (a[0] == "minlen" || a[0] == "maxlen") || c.typ == "text" && (a[0] == "min" || a[0] == "max") {
					add("ErrAttributeNotAllow", "C03", t.name+"."+c.name+" "+a[0])
				}
			}
		}
		for _, x := range t.idxs {
			if names(x.name) {
				add("ErrDuplicateIndex", "C01", t.name+"."+x.name)
			}
			for _, c := range x.cols {
				if !own[c] {
					add("ErrColumnNotFound", "C02", "index "+x.name+" "+c)
				}
			}
		}
		for _, f := range t.fks {
			for _, c := range f.child {
				if !own[c] {
					add("ErrColumnNotFound", "C02", "child "+t.name+"."+c)
				}
			}
			if cols[f.parent] == nil {
				add("ErrTableNotFound", "C02", f.parent)
			} else {
				for _, c := range f.pcols {
					if !cols[f.parent][c] {
						add("ErrColumnNotFound", "C02", "parent "+f.parent+"."+c)
					}
				}
			}
			on := seen()
			for _, a := range f.actions {
				if on(a[0]) {
					add("ErrDupFKAction", "C01", t.name+" "+a[0])
				}
			}
		}
	}
	names := seen()
	declared := map[string]bool{}
	for _, a := range s.actions {
		if names(a.name) {
			add("ErrDuplicateAction", "C01", a.name)
		}
		declared[a.name] = true
		ps := seen()
		for _, x := range a.params {
			if ps(x) {
				add("ErrDuplicateParam", "C01", a.name+" "+x)
			}
		}
		n := map[string]int{}
		for _, m := range a.mods {
			n[m]++
		}
		if n["public"]+n["private"] > 1 {
			add("ErrActionVisibilityAlreadySet", "C12", a.name)
		}
		if n["view"] > 1 {
			add("ErrActionMutabilityAlreadySet", "C12", a.name)
		}
		if n["owner"] > 1 {
			add("ErrActionAuxiliaryAlreadySet", "C12", a.name)
		}
	}
	if len(s.inits) > 1 {
		add("ErrMultiInit", "C12", "")
	}
	for range s.inits {
		declared["init"] = true
	}
	for _, a := range append(append([]rAction{}, s.actions...), s.inits...) {
		scope := map[string]bool{}
		for _, x := range a.params {
			scope[x] = true
		}
		for _, st := range a.stmts {
			if !statementOK(st) {
				add("statement", "C06", a.name+": "+st.text)
			}
			if st.sql {
				continue
			}
			if st.ext != "" {
				if !aliases[st.ext] {
					add("ErrExtensionNotFound", "C04", a.name+": "+st.ext)
				}
			} else if !declared[st.method] {
				add("ErrActionNotFound", "C04", a.name+": "+st.method)
			}
			for _, t := range st.args {
				if t.kind == "VAR" && !scope[t.text] || t.kind == "AT" && t.text != "@caller" {
					add("ErrVariableNotFound", "C05", a.name+": "+st.text+" "+t.text)
				}
			}
			if st.ext != "" {
				rs := seen()
				for _, r := range st.receivers {
					if rs(r) {
						add("ErrDuplicateVariable", "C05", a.name+": "+r)
					}
					scope[r] = true
				}
			}
		}
	}
	return
}

var stmtCache = map[string]bool{}

// statementOK asks the parsers of the database engine (the specification of a
// well-formed statement).
func statementOK(st rStmt) (ok bool) {
	if v, ok := stmtCache[st.text]; ok {
		return v
	}
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
		stmtCache[st.text] = ok
	}()
	s, err := actparser.Parse(st.text)
	if err != nil {
		return false
	}
	if _, dml := s.(*actparser.DMLStmt); dml {
		t, err := sqlparser.ParseSql(st.text, 1, nil, false)
		if err != nil {
			return false
		}
		if _, err := t.ToSQL(); err != nil {
			return false
		}
	}
	return true
}
