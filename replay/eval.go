package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

type finding struct {
	ID, What, Input string
	prop            string
}

type outcome struct {
	res      any
	sch      *schema.Schema
	err      error
	panicked any
}

func run(text string, l *utils.ErrorListener, mode kfparser.Mode) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.panicked = r
		}
	}()
	r, err := kfparser.ParseKF(text, l, mode)
	o.res, o.err = r, err
	o.sch, _ = r.(*schema.Schema)
	return
}

// recorder notes every syntax error the lexer and parser report.
type recorder struct {
	*antlr.DefaultErrorListener
	lines []string
}

func (r *recorder) SyntaxError(_ antlr.Recognizer, _ interface{}, line, column int, msg string, _ antlr.RecognitionException) {
	r.lines = append(r.lines, fmt.Sprintf("syntax error: line %d:%d %s", line, column, msg))
}

// reports runs lexer and parser alone.
func reports(text string) (lines []string, tree antlr.Tree, p *kfgrammar.KuneiformParser, panicked any) {
	rec := &recorder{DefaultErrorListener: antlr.NewDefaultErrorListener()}
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
		lines = rec.lines
	}()
	lx := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(text))
	lx.RemoveErrorListeners()
	lx.AddErrorListener(rec)
	p = kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lx, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	p.AddErrorListener(rec)
	tree = p.Source_unit()
	return
}

func norm(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// same compares what is written, not whether an absent list is nil or empty.
func same(a, b any) bool { return reflect.DeepEqual(canon(a), canon(b)) }

func canon(v any) any {
	rv := reflect.ValueOf(v)
	return canonV(rv)
}

func canonV(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return canonV(v.Elem())
	case reflect.Slice, reflect.Array:
		var out []any
		for i := 0; i < v.Len(); i++ {
			out = append(out, canonV(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			out[v.Type().Field(i).Name] = canonV(v.Field(i))
		}
		return out
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Invalid:
		return nil
	}
	return fmt.Sprint(v)
}

func matched(err error) (out []string) {
	for n, s := range sentinels {
		if errors.Is(err, s) {
			out = append(out, n)
		}
	}
	return
}

// evaluate reads the text with the reference and with the code under test and
// reports every property the pair of answers breaks.
func evaluate(text string) (fs []finding) {
	add := func(prop, id, what string, args ...any) {
		fs = append(fs, finding{prop: prop, ID: prop + ":" + id, What: fmt.Sprintf(what, args...), Input: text})
	}
	ts, lexOK := lex(text)
	var src *rSource
	if lexOK {
		src = refParse(ts)
	}
	lst := utils.NewErrorListener()
	o := run(text, lst, kfparser.Default)
	if o.panicked != nil {
		add("C14", "panic", "the parse function panics: %v", o.panicked)
		return
	}
	accepted := o.err == nil
	if accepted != (lst.Err() == nil) {
		add("C14", "listener", "returned error %v but the listener holds %v", o.err, lst.Err())
	}
	if accepted && o.sch == nil {
		add("C14", "noschema", "accepted without a schema")
	}
	lines, tree, _, pan := reports(text)
	if pan != nil {
		add("C14", "parserpanic", "the generated parser panics: %v", pan)
	}
	if len(lines) > 0 {
		if accepted {
			add("C15", "accepted", "%d syntax errors were reported but the source is accepted (%s)", len(lines), lines[0])
		} else if !errors.Is(o.err, utils.ErrInvalidSyntax) {
			add("C15", "sentinel", "the error %q of a source with syntax errors does not match the syntax error sentinel", o.err)
		}
		var got []string
		for _, e := range lst.ErrorList {
			got = append(got, e.Error())
		}
		if !reflect.DeepEqual(got, lines) {
			add("C15", "recorded", "reported %q, recorded %q", lines, got)
		}
	} else if !accepted && errors.Is(o.err, utils.ErrInvalidSyntax) {
		add("C15", "spurious", "no syntax error was reported but the error is %q", o.err)
	}
	if len(lines) == 0 && !accepted && len(lst.ErrorList) != 1 {
		add("C15", "recorded", "a rejected source without syntax errors has %d recorded errors", len(lst.ErrorList))
	}
	if src == nil && len(lines) == 0 {
		add("C25", "accepted", "the source is no sentence of the grammar but no syntax error is reported")
		if accepted {
			add("C15", "missed", "a source that is no sentence of the grammar is accepted")
		}
	}
	if src != nil && len(lines) > 0 {
		add("C25", "rejected", "a sentence of the grammar is reported as a syntax error: %s", lines[0])
		add("C07", "syntax", "a syntactically correct source is rejected: %s", lines[0])
	}
	if src != nil && len(lines) == 0 {
		checkTree(tree, ts, add)
	}
	if src == nil {
		return
	}
	br := src.breaches()
	if accepted {
		for _, b := range br {
			add(b.prop, "accepted-"+b.rule, "the source breaks the rule %s (%s) but is accepted", b.rule, b.where)
		}
	}
	if !accepted && len(lines) == 0 {
		if len(br) == 0 {
			add("C07", "rejected", "a source that breaks no rule is rejected: %v", o.err)
		}
		ms := matched(o.err)
		for _, m := range ms {
			found := false
			for _, b := range br {
				found = found || b.rule == m
			}
			if !found {
				add("C08", "wrong-"+m, "rejected with %q, which matches %s, a rule the source respects", o.err, m)
			}
		}
		if len(ms) == 0 && len(br) > 0 {
			stm := false
			for _, b := range br {
				stm = stm || b.rule == "statement"
			}
			if !stm {
				add("C08", "no-sentinel", "rejected with %q, which matches no sentinel of a broken rule", o.err)
			}
		}
	}
	if o.sch != nil && accepted {
		exp := src.expected()
		compareSchema(exp, o.sch, add)
		if len(br) == 0 {
			checkJSON(o.sch, add)
		}
		for ai, a := range src.actions {
			for i, an := range a.anns {
				if ai < len(o.sch.Actions) && i < len(o.sch.Actions[ai].Annotations) {
					checkAnnotation(o.sch.Actions[ai].Annotations[i], an, add)
				}
			}
		}
		if len(src.exts)+len(src.tables)+len(src.actions)+len(src.inits) == 0 && (o.sch.Tables != nil || o.sch.Actions != nil || o.sch.Extensions != nil) {
			add("C13", "absent", "parts not written are present")
		}
	}
	return
}

func compareSchema(exp, got *schema.Schema, add func(string, string, string, ...any)) {
	if exp.Name != got.Name {
		add("C13", "name", "database name %q instead of %q", got.Name, exp.Name)
	}
	if got.Owner != "" {
		add("C13", "owner", "owner %q instead of none", got.Owner)
	}
	if !same(exp.Extensions, got.Extensions) {
		add("C13", "extensions", "extensions %s instead of %s", norm(got.Extensions), norm(exp.Extensions))
	}
	if len(exp.Tables) == 0 && got.Tables != nil || len(exp.Actions) == 0 && got.Actions != nil || len(exp.Extensions) == 0 && got.Extensions != nil {
		add("C13", "absent", "parts not written are present: %s", norm(got))
	}
	tn := func(ts []schema.Table) (out []string) {
		for _, t := range ts {
			out = append(out, t.Name)
		}
		return
	}
	if !reflect.DeepEqual(tn(exp.Tables), tn(got.Tables)) {
		add("C09", "tables", "tables %q instead of %q", tn(got.Tables), tn(exp.Tables))
	} else {
		for i, t := range exp.Tables {
			g := got.Tables[i]
			if !same(t.Columns, g.Columns) {
				add("C09", "columns", "columns of %s: %s instead of %s", t.Name, norm(g.Columns), norm(t.Columns))
			}
			if !same(t.Indexes, g.Indexes) {
				add("C10", "indexes", "indexes of %s: %s instead of %s", t.Name, norm(g.Indexes), norm(t.Indexes))
			}
			if !same(t.ForeignKeys, g.ForeignKeys) {
				add("C10", "fks", "foreign keys of %s: %s instead of %s", t.Name, norm(g.ForeignKeys), norm(t.ForeignKeys))
			}
		}
	}
	an := func(as []schema.Action) (out []string) {
		for _, a := range as {
			out = append(out, a.Name)
		}
		return
	}
	if !reflect.DeepEqual(an(exp.Actions), an(got.Actions)) {
		add("C11", "actions", "actions %q instead of %q", an(got.Actions), an(exp.Actions))
		return
	}
	for i, a := range exp.Actions {
		g := got.Actions[i]
		if !same(a.Inputs, g.Inputs) {
			add("C11", "inputs", "parameters of %s: %q instead of %q", a.Name, g.Inputs, a.Inputs)
		}
		if !same(a.Statements, g.Statements) {
			add("C11", "statements", "statements of %s: %q instead of %q", a.Name, g.Statements, a.Statements)
		}
		if !same(a.Annotations, g.Annotations) {
			add("C11", "annotations", "annotations of %s: %q instead of %q", a.Name, g.Annotations, a.Annotations)
		}
		p := "C12"
		if a.Name == "init" {
			p = "C11"
		}
		if a.Public != g.Public || a.Mutability != g.Mutability || !same(a.Auxiliaries, g.Auxiliaries) {
			add(p, "modifiers", "%s is public=%v %s %q instead of public=%v %s %q", a.Name, g.Public, g.Mutability, g.Auxiliaries, a.Public, a.Mutability, a.Auxiliaries)
		}
	}
}

func checkAnnotation(text string, an rAnn, add func(string, string, string, ...any)) {
	defer func() {
		if r := recover(); r != nil {
			add("C22", "panic", "decoding %q panics: %v", text, r)
		}
	}()
	a, err := utils.ParseAnnotation(text)
	if err != nil {
		add("C22", "rejected", "the annotation %q of an accepted source is not decoded: %v", text, err)
		return
	}
	if a.Target != an.target {
		add("C22", "target", "annotation %q decoded with target %q instead of %q", text, a.Target, an.target)
	}
	var got [][2]string
	for _, x := range a.Attributes {
		got = append(got, [2]string{x.Name, x.Value})
	}
	if !reflect.DeepEqual(got, an.attrs) {
		add("C22", "attributes", "annotation %q decoded with attributes %q instead of %q", text, got, an.attrs)
	}
}

// --- JSON ---

type jfield struct {
	key  string
	val  any
	omit bool // only when empty
}

type jobj []jfield

// doc is the documented JSON form.
func doc(v any) any {
	strs := func(l []string) any {
		if l == nil {
			return nil
		}
		out := []any{}
		for _, s := range l {
			out = append(out, s)
		}
		return out
	}
	switch x := v.(type) {
	case *schema.Schema:
		var t, a, e []any
		for i := range x.Tables {
			t = append(t, doc(&x.Tables[i]))
		}
		for i := range x.Actions {
			a = append(a, doc(&x.Actions[i]))
		}
		for i := range x.Extensions {
			e = append(e, doc(&x.Extensions[i]))
		}
		return jobj{{"owner", x.Owner, false}, {"name", x.Name, false}, {"tables", t, true}, {"actions", a, true}, {"extensions", e, true}}
	case *schema.Extension:
		var c any
		if x.Config != nil {
			l := []any{}
			for _, k := range x.Config {
				l = append(l, jobj{{"argument", k.Argument, false}, {"value", k.Value, false}})
			}
			c = l
		}
		return jobj{{"name", x.Name, false}, {"config", c, false}, {"alias", x.Alias, false}}
	case *schema.Table:
		var c, i, f []any
		for k := range x.Columns {
			c = append(c, doc(&x.Columns[k]))
		}
		for k := range x.Indexes {
			i = append(i, doc(&x.Indexes[k]))
		}
		for k := range x.ForeignKeys {
			f = append(f, doc(&x.ForeignKeys[k]))
		}
		return jobj{{"name", x.Name, false}, {"columns", c, true}, {"indexes", i, true}, {"foreign_keys", f, true}}
	case *schema.Column:
		var a []any
		for k := range x.Attributes {
			a = append(a, doc(&x.Attributes[k]))
		}
		return jobj{{"name", x.Name, false}, {"type", string(x.Type), false}, {"attributes", a, true}}
	case *schema.Attribute:
		if x.Value == nil {
			return jobj{{"type", string(x.Type), false}}
		}
		return jobj{{"type", string(x.Type), false}, {"value", x.Value, false}}
	case *schema.Index:
		o := jobj{{"name", x.Name, false}, {"columns", strs(x.Columns), false}}
		if x.Type != "" {
			o = append(o, jfield{"type", string(x.Type), false})
		}
		return o
	case *schema.ForeignKey:
		var a any
		if x.Actions != nil {
			l := []any{}
			for _, k := range x.Actions {
				l = append(l, jobj{{"on", string(k.On), false}, {"do", string(k.Do), false}})
			}
			a = l
		}
		return jobj{{"child_keys", strs(x.ChildKeys), false}, {"parent_keys", strs(x.ParentKeys), false}, {"parent_table", x.ParentTable, false}, {"actions", a, false}}
	case *schema.Action:
		var aux any
		if x.Auxiliaries != nil {
			l := []any{}
			for _, k := range x.Auxiliaries {
				l = append(l, string(k))
			}
			aux = l
		}
		var an, st []any
		for _, s := range x.Annotations {
			an = append(an, s)
		}
		for _, s := range x.Statements {
			st = append(st, s)
		}
		return jobj{{"name", x.Name, false}, {"annotations", an, true}, {"inputs", strs(x.Inputs), false}, {"public", x.Public, false},
			{"mutability", string(x.Mutability), false}, {"auxiliaries", aux, false}, {"statements", st, true}}
	}
	return nil
}

// undoc turns the documented form into what a generic JSON decoder returns.
func undoc(v any) any {
	switch x := v.(type) {
	case jobj:
		m := map[string]any{}
		for _, f := range x {
			if l, ok := f.val.([]any); ok && f.omit && len(l) == 0 {
				continue
			}
			m[f.key] = undoc(f.val)
		}
		return m
	case []any:
		if x == nil {
			return nil
		}
		out := []any{}
		for _, e := range x {
			out = append(out, undoc(e))
		}
		return out
	case string:
		var s any
		b, _ := json.Marshal(x) // replaces invalid UTF-8 as the encoding does
		json.Unmarshal(b, &s)
		return s
	}
	return v
}

type jsoner interface{ ToJSON() ([]byte, error) }

func checkJSONOne(v jsoner, fresh any, add func(string, string, string, ...any)) {
	name := fmt.Sprintf("%T", v)
	b, err := v.ToJSON()
	if err != nil {
		add("C20", "error", "%s %s: ToJSON fails: %v", name, norm(v), err)
		return
	}
	var got any
	if err := json.Unmarshal(b, &got); err != nil {
		add("C20", "invalid", "%s: ToJSON yields invalid JSON: %v", name, err)
		return
	}
	exp := undoc(doc(v))
	if !reflect.DeepEqual(got, exp) {
		eb, _ := json.Marshal(exp)
		add("C20", "form", "%s: JSON form %s instead of %s", name, b, eb)
		return
	}
	var ind bytes.Buffer
	json.Indent(&ind, b, "", "  ")
	std, serr := json.MarshalIndent(v, "", "  ")
	if serr != nil || !bytes.Equal(std, b) || ind.String() != string(b) {
		add("C20", "encoding", "%s: %q is not the indented standard encoding", name, b)
	}
	if err := json.Unmarshal(b, fresh); err != nil {
		add("C20", "decode", "%s: decoding the JSON form fails: %v", name, err)
	} else if !same(fresh, v) {
		add("C20", "roundtrip", "%s: %s decodes to %s", name, norm(v), norm(fresh))
	}
}

func checkJSON(s *schema.Schema, add func(string, string, string, ...any)) {
	checkJSONOne(s, &schema.Schema{}, add)
	for i := range s.Extensions {
		checkJSONOne(&s.Extensions[i], &schema.Extension{}, add)
	}
	for i := range s.Tables {
		t := &s.Tables[i]
		checkJSONOne(t, &schema.Table{}, add)
		for j := range t.Columns {
			checkJSONOne(&t.Columns[j], &schema.Column{}, add)
			for k := range t.Columns[j].Attributes {
				checkJSONOne(&t.Columns[j].Attributes[k], &schema.Attribute{}, add)
			}
		}
		for j := range t.Indexes {
			checkJSONOne(&t.Indexes[j], &schema.Index{}, add)
		}
		for j := range t.ForeignKeys {
			checkJSONOne(&t.ForeignKeys[j], &schema.ForeignKey{}, add)
		}
	}
	for i := range s.Actions {
		checkJSONOne(&s.Actions[i], &schema.Action{}, add)
	}
}

// --- syntax tree ---

// treeShape gives for every rule the regular expression of its children: rule
// names as <name>, tokens by symbolic name.
func checkTree(tree antlr.Tree, ts []tok, add func(string, string, string, ...any)) {
	// the leaves are the tokens of the source, in order, followed by the end of input
	var leaves []string
	var walk func(antlr.Tree)
	bad := ""
	walk = func(t antlr.Tree) {
		if _, ok := t.(antlr.ErrorNode); ok {
			bad = "error node"
		}
		if l, ok := t.(antlr.TerminalNode); ok {
			leaves = append(leaves, l.GetText())
			return
		}
		for _, c := range t.GetChildren() {
			walk(c)
		}
	}
	walk(tree)
	var exp []string
	for _, t := range ts {
		exp = append(exp, t.text)
	}
	exp = append(exp, "<EOF>")
	if bad != "" || !reflect.DeepEqual(exp, leaves) {
		add("C25", "leaves", "the leaves of the tree are %q instead of the tokens %q %s", leaves, exp, bad)
		return
	}
	checkShapes(tree, add)
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
