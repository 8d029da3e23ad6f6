package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

func init() {
	drivers["C14"] = driver{textRule + "; plus listeners with earlier errors and arbitrary character strings", c14, true}
	drivers["C15"] = driver{textRule + "; plus direct calls of the listener", c15, true}
	drivers["C16"] = driver{"random sequences of errors added to a collection, compared with a list kept beside it; every case is non-trivial", c16, false}
	drivers["C17"] = driver{"families of random sources that share their names, parsed in three different orders in three processes, in changing modes and with and without listeners; the result of a source must be the same in each; every case is non-trivial", c17, true}
	drivers["C20"] = driver{"random schema values and parts, compared with the documented JSON form; every case is non-trivial", c20, false}
	drivers["C21"] = driver{"all documented keywords in random letter case, their neighbours, and random strings; every case is non-trivial", c21, false}
	drivers["C22"] = driver{"random annotations as an accepted source produces them, and arbitrary strings; every case is non-trivial", c22, false}
}

func guard(res *result, id, in string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			res.note(finding{ID: id + ":panic", What: fmt.Sprintf("panic: %v -- input: %s", r, in), Input: in})
		}
	}()
	f()
}

func (g *gen) garbage() string {
	var b strings.Builder
	for i, n := 0, g.n(40); i < n; i++ {
		b.WriteString(g.pick("(", ")", "=", ",", "'", `\`, "a", "b1", "_", "0", "12", " ", "\n", "@", "é", "\xff", "x=1", "y='z'", "database", "{", "}", ";", "table", "\x00"))
	}
	return b.String()
}

func c14(r *rand.Rand, deadline time.Time, res *result) {
	half := time.Now().Add(time.Until(deadline) / 2)
	textDriver("C14")(r, half, res)
	g := &gen{r: r}
	for time.Now().Before(deadline) && (len(res.Findings) == 0 || !*stop) {
		text := g.next()
		if g.p(0.3) {
			text = g.garbage()
		}
		res.Evaluations++
		res.Distinct++
		note := func(id, f string, a ...any) {
			res.note(finding{ID: "C14:" + id, What: fmt.Sprintf(f, a...) + " -- input: " + text, Input: text})
		}
		mode, how := kfparser.Default, ""
		if g.p(0.3) {
			mode, how = kfparser.Trace, " in trace mode"
		}
		plain := run(text, nil, mode)
		if plain.panicked != nil {
			note("panic", "the parse function panics%s: %v", how, plain.panicked)
			continue
		}
		if (plain.err == nil) && plain.sch == nil {
			note("noschema", "accepted without a schema")
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					note("panic", "Parse panics: %v", x)
				}
			}()
			_, err := kfparser.Parse(text)
			if (err == nil) != (plain.err == nil) {
				note("parse", "Parse returns %v, ParseKF %v", err, plain.err)
			}
		}()
		// a listener that already holds an error
		l := utils.NewErrorListener()
		l.Add(errors.New("earlier"))
		o := run(text, l, mode)
		if o.panicked != nil {
			note("panic", "the parse function panics with a used listener: %v", o.panicked)
		} else if (o.err == nil) != (l.Err() == nil) || o.err == nil {
			note("listener", "with a listener holding an error the parse function returns %v", o.err)
		} else if len(l.ErrorList) == 0 || l.ErrorList[0].Error() != "earlier" {
			note("listener", "the earlier error of the listener is gone: %v", l.ErrorList)
		}
	}
}

func c15(r *rand.Rand, deadline time.Time, res *result) {
	for i := 0; i < 200; i++ {
		res.Evaluations++
		res.Distinct++
		l := utils.NewErrorListener()
		var exp []string
		for j, n := 0, r.Intn(5); j < n; j++ {
			line, col, msg := r.Intn(100), r.Intn(100), fmt.Sprint("msg %s %d\n", r.Intn(9))
			switch r.Intn(4) {
			case 0:
				l.ReportAmbiguity(nil, nil, 1, 2, true, nil, nil)
			case 1:
				l.ReportAttemptingFullContext(nil, nil, 1, 2, nil, nil)
			case 2:
				l.ReportContextSensitivity(nil, nil, 1, 2, 3, nil)
			default:
				l.SyntaxError(nil, nil, line, col, msg, nil)
				exp = append(exp, fmt.Sprintf("syntax error: line %d:%d %s", line, col, msg))
			}
		}
		var got []string
		for _, e := range l.ErrorList {
			got = append(got, e.Error())
			if !errors.Is(e, utils.ErrInvalidSyntax) {
				res.note(finding{ID: "C15:sentinel", What: fmt.Sprintf("the recorded error %q does not match the syntax error sentinel", e)})
			}
		}
		if !reflect.DeepEqual(got, exp) {
			res.note(finding{ID: "C15:listener", What: fmt.Sprintf("reported %q, recorded %q", exp, got)})
		}
		if (l.Err() != nil) != (len(exp) > 0) {
			res.note(finding{ID: "C15:listener", What: fmt.Sprintf("reported %q, Err() is %v", exp, l.Err())})
		}
	}
	if len(res.Findings) == 0 {
		textDriver("C15")(r, deadline, res)
	}
}

func c16(r *rand.Rand, deadline time.Time, res *result) {
	for time.Now().Before(deadline) && res.Evaluations < 20000 && len(res.Findings) == 0 {
		res.Evaluations++
		res.Distinct++
		note := func(f string, a ...any) {
			res.note(finding{ID: "C16:list", What: fmt.Sprintf(f, a...)})
		}
		l := utils.NewErrorListener()
		var exp []error
		n := r.Intn(12)
		for i := 0; i <= n; i++ {
			errs := fmt.Sprint(exp)
			if (l.Err() != nil) != (len(exp) > 0) {
				note("after adding %s, Err() is %v", errs, l.Err())
			}
			if len(l.ErrorList) != len(exp) {
				note("after adding %s the collection holds %v", errs, l.ErrorList)
				break
			}
			for j := range exp {
				if l.ErrorList[j] != exp[j] {
					note("after adding %s the collection holds %v", errs, l.ErrorList)
				}
			}
			want := "no errors"
			var first error
			if len(exp) > 0 {
				first = exp[0]
				want = first.Error()
				if len(exp) > 1 {
					want = fmt.Sprintf("%s (with %d+ errors)", first, len(exp)-1)
				}
			}
			if l.ErrorList.Error() != want || l.Error() != want {
				note("after adding %s the message is %q / %q", errs, l.Error(), l.ErrorList.Error())
			}
			if l.Unwrap() != first {
				note("after adding %s Unwrap yields %v", errs, l.Unwrap())
			}
			if e := l.Err(); e != nil {
				if e.Error() != want || errors.Unwrap(e) != first {
					note("after adding %s Err() is %q", errs, e)
				}
			}
			switch r.Intn(5) {
			case 0:
				l.ReportAmbiguity(nil, nil, 1, 2, r.Intn(2) == 0, nil, nil)
			case 1:
				l.ReportAttemptingFullContext(nil, nil, 1, 2, nil, nil)
			case 2:
				l.ReportContextSensitivity(nil, nil, 1, 2, 3, nil)
			default:
				e := fmt.Errorf("e%d", r.Intn(3))
				if r.Intn(4) == 0 && len(exp) > 0 {
					e = exp[r.Intn(len(exp))]
				}
				l.Add(e)
				exp = append(exp, e)
			}
		}
		res.sample(fmt.Sprint(exp))
	}
}

func view(o outcome) string {
	if o.panicked != nil {
		return fmt.Sprint("panic ", o.panicked)
	}
	if o.err != nil {
		return "error " + o.err.Error() + fmt.Sprint(matchedSorted(o.err))
	}
	return norm(o.sch) + fmt.Sprintf("%#v", canon(o.sch))
}

func matchedSorted(err error) (out []string) {
	for _, n := range sentinelNames {
		if errors.Is(err, sentinels[n]) {
			out = append(out, n)
		}
	}
	if errors.Is(err, utils.ErrInvalidSyntax) {
		out = append(out, "syntax")
	}
	return
}

var sentinelNames []string

func init() {
	for n := range sentinels {
		sentinelNames = append(sentinelNames, n)
	}
	// map order is random, so sort
	for i := range sentinelNames {
		for j := i + 1; j < len(sentinelNames); j++ {
			if sentinelNames[j] < sentinelNames[i] {
				sentinelNames[i], sentinelNames[j] = sentinelNames[j], sentinelNames[i]
			}
		}
	}
}

// kin returns a relative of the source: the same names, a little changed.
func (g *gen) kin(ts []string) []string {
	ts = append([]string{}, ts...)
	match := func(i int) int { // the closer of the bracket at i
		d := 0
		for ; i < len(ts); i++ {
			switch ts[i] {
			case "(", "{":
				d++
			case ")", "}":
				if d--; d == 0 {
					return i
				}
			}
		}
		return -1
	}
	class := func(t string) string {
		switch {
		case t == "":
			return ""
		case t[0] == '$' || t[0] == '#' || t[0] == '@':
			return t[:1]
		case t[0] == '\'':
			return "s"
		case t[0] >= '0' && t[0] <= '9':
			return "n"
		case isLetter(rune(t[0])) && len(strings.Fields(t)) == 1:
			return "w"
		}
		return ""
	}
	for k := 1 + g.n(3); k > 0; k-- {
		i := g.n(len(ts))
		switch g.n(6) {
		case 0: // empty a pair of brackets
			for n := 0; n < 20; n++ {
				i = g.n(len(ts))
				if ts[i] == "(" || ts[i] == "{" && g.p(0.2) {
					if j := match(i); j > i {
						ts = append(ts[:i+1:i+1], ts[j:]...)
					}
					break
				}
			}
		case 1, 2: // another word of the same class
			c := class(ts[i])
			if c == "" {
				k++
				continue
			}
			for n := 0; n < 20; n++ {
				if t := pickOf(g, ts); class(t) == c {
					ts[i] = t
					break
				}
			}
		case 3: // leave out, or repeat, one item of a list
			var js []int
			d := 0
			for j := i; j < len(ts); j++ {
				switch ts[j] {
				case "(", "{":
					d++
				case ")", "}":
					d--
				}
				if d < 0 {
					break
				}
				if d == 0 && (ts[j] == "," || ts[j] == ";") {
					js = append(js, j)
				}
			}
			if len(js) > 1 {
				a, b := js[0], js[1]
				if g.p(0.3) {
					ts = append(append(append([]string{}, ts[:b]...), ts[a:b]...), ts[b:]...)
				} else {
					ts = append(ts[:a:a], ts[b:]...)
				}
			}
		case 4: // a longer list
			if ts[i] == "(" || ts[i] == "," {
				if j := i + 1; j < len(ts) && class(ts[j]) != "" {
					ts = append(append(append([]string{}, ts[:j]...), ts[j], ","), ts[j:]...)
					continue
				}
			}
			k++
			if g.p(0.1) {
				k--
			}
		case 5:
			if c := class(ts[i]); c == "n" || c == "s" {
				ts[i] = g.lit()
			}
		}
	}
	return ts
}

type seqStep struct {
	Src           string
	Trace, Listen bool
}

func seqMain() {
	b, _ := io.ReadAll(os.Stdin)
	var steps []seqStep
	if json.Unmarshal(b, &steps) != nil {
		os.Exit(3)
	}
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stderr = os.Stdout
	var out []string
	for _, s := range steps {
		var l *utils.ErrorListener
		mode := kfparser.Default
		if s.Listen {
			l = utils.NewErrorListener()
		}
		if s.Trace {
			mode = kfparser.Trace
		}
		out = append(out, strings.ToValidUTF8(view(run(s.Src, l, mode)), "?"))
	}
	json.NewEncoder(stdout).Encode(out)
}

// inFresh runs the steps, in order, in a process of their own.
func inFresh(steps []seqStep) ([]string, error) {
	self, _ := os.Executable()
	b, _ := json.Marshal(steps)
	c := exec.Command(self, "sequence")
	c.Stdin = bytes.NewReader(b)
	o, err := c.Output()
	if err != nil {
		return nil, err
	}
	var out []string
	if err := json.Unmarshal(o, &out); err != nil || len(out) != len(steps) {
		return nil, fmt.Errorf("a sequence of parses gave %d of %d results", len(out), len(steps))
	}
	return out, nil
}

func c17(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	base := corpus()
	for time.Now().Before(deadline) && len(res.Findings) == 0 {
		// families of sources that share their names
		var srcs []string
		for f := 0; f < 6; f++ {
			g.bad = 0
			if g.p(0.3) {
				g.bad = 0.03
			}
			ts := g.source(1 + g.n(3))
			srcs = append(srcs, g.render(ts))
			for i := 0; i < 8; i++ {
				x := g.kin(ts)
				srcs = append(srcs, g.render(x))
				if g.p(0.3) {
					ts = x
				}
			}
		}
		for i := 0; i < 6; i++ {
			srcs = append(srcs, strings.ToValidUTF8(pickOf(g, base), "?"), strings.ToValidUTF8(g.next(), "?"))
		}
		first := map[string]string{}
		where := map[string][]seqStep{}
		for k := 0; k < 3; k++ {
			var steps []seqStep
			for _, i := range r.Perm(len(srcs)) {
				steps = append(steps, seqStep{srcs[i], g.p(0.2), g.p(0.3)})
				if g.p(0.1) {
					steps = append(steps, seqStep{srcs[i], g.p(0.2), g.p(0.3)})
				}
			}
			out, err := inFresh(steps)
			if err != nil {
				res.Err = err.Error()
				continue
			}
			res.Evaluations += len(steps)
			for i, st := range steps {
				w, ok := first[st.Src]
				if !ok {
					first[st.Src], where[st.Src] = out[i], steps[:i+1]
					res.Distinct++
					continue
				}
				if w != out[i] {
					res.note(shrinkHistory(st.Src, where[st.Src], steps[:i+1]))
					return
				}
			}
		}
		res.sample(strings.Join(srcs[:3], " | "))
	}
}

// shrinkHistory looks for a short history after which the source yields
// something else than alone.
func shrinkHistory(src string, a, b []seqStep) finding {
	last := func(h []seqStep) string {
		o, err := inFresh(h)
		if err != nil {
			return "no result: " + err.Error()
		}
		return o[len(o)-1]
	}
	alone := last([]seqStep{{Src: src}})
	h := a
	if last(a) == alone {
		h = b
	}
	me := h[len(h)-1]
	pre := h[:len(h)-1]
	for n := len(pre) / 2; n > 0 && len(pre) > 0; {
		cut := false
		for i := 0; i+n <= len(pre); i += n {
			x := append(append([]seqStep{}, pre[:i]...), pre[i+n:]...)
			if last(append(append([]seqStep{}, x...), me)) != alone {
				pre, cut = x, true
				break
			}
		}
		if !cut {
			n /= 2
		} else if n > len(pre)/2 && n > 1 {
			n = len(pre) / 2
		}
	}
	var l []string
	for _, s := range pre {
		l = append(l, fmt.Sprintf("%q (trace %v, listener %v)", s.Src, s.Trace, s.Listen))
	}
	v := last(append(append([]seqStep{}, pre...), me))
	return finding{ID: "C17:history", What: fmt.Sprintf("alone in a process the source %q yields %s; parsed (trace %v, listener %v) after %s it yields %s", src, short(alone), me.Trace, me.Listen, strings.Join(l, ", then "), short(v)), Input: src}
}

// --- JSON ---

func (g *gen) anyStr() string {
	if g.p(0.1) {
		return ""
	}
	var b strings.Builder
	for i, n := 0, g.n(6); i < n; i++ {
		b.WriteString(g.pick("a", "B", "0", "'", "\"", "\\", "<", ">", "&", "\n", "\t", "é", "日", "\u2028", "\x00", "\x7f", " ", "😀", "/", "null", "1"))
	}
	return b.String()
}

func (g *gen) strList(nilOK bool) []string {
	n := g.n(4)
	if n == 0 {
		return nil
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, g.anyStr())
	}
	return out
}

func (g *gen) randSchema() *schema.Schema {
	s := &schema.Schema{Owner: g.anyStr(), Name: g.anyStr()}
	for i := g.n(3); i > 0; i-- {
		e := schema.Extension{Name: g.anyStr(), Alias: g.anyStr()}
		for k := g.n(3); k > 0; k-- {
			e.Config = append(e.Config, schema.ExtensionConfig{Argument: g.anyStr(), Value: g.anyStr()})
		}
		s.Extensions = append(s.Extensions, e)
	}
	for i := g.n(3); i > 0; i-- {
		t := schema.Table{Name: g.anyStr()}
		for k := g.n(4); k > 0; k-- {
			c := schema.Column{Name: g.anyStr(), Type: schema.ColumnType(g.pick("null", "text", "int", "blob", ""))}
			for m := g.n(3); m > 0; m-- {
				a := schema.Attribute{Type: schema.AttributeType(g.pick("primary_key", "unique", "not_null", "default", "min", "max", "min_length", "max_length"))}
				if g.p(0.6) {
					a.Value = g.anyStr()
				}
				c.Attributes = append(c.Attributes, a)
			}
			t.Columns = append(t.Columns, c)
		}
		for k := g.n(3); k > 0; k-- {
			t.Indexes = append(t.Indexes, schema.Index{Name: g.anyStr(), Columns: g.strList(true), Type: schema.IndexType(g.pick("btree", "unique_btree", "primary", ""))})
		}
		for k := g.n(3); k > 0; k-- {
			f := schema.ForeignKey{ChildKeys: g.strList(true), ParentKeys: g.strList(true), ParentTable: g.anyStr()}
			for m := g.n(3); m > 0; m-- {
				f.Actions = append(f.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(g.pick("UPDATE", "DELETE")), Do: schema.ForeignKeyActionDo(g.pick("NO ACTION", "RESTRICT", "SET NULL", "SET DEFAULT", "CASCADE"))})
			}
			t.ForeignKeys = append(t.ForeignKeys, f)
		}
		s.Tables = append(s.Tables, t)
	}
	for i := g.n(3); i > 0; i-- {
		a := schema.Action{Name: g.anyStr(), Annotations: g.strList(true), Inputs: g.strList(true), Public: g.p(0.5), Mutability: schema.MutabilityType(g.pick("update", "view", "")), Statements: g.strList(true)}
		if g.p(0.3) {
			a.Auxiliaries = []schema.AuxiliaryType{"owner"}
		}
		s.Actions = append(s.Actions, a)
	}
	return s
}

func c20(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	for time.Now().Before(deadline) && res.Evaluations < 30000 && len(res.Findings) == 0 {
		s := g.randSchema()
		in := norm(s)
		res.Evaluations++
		res.Distinct++
		res.sample(in)
		guard(res, "C20", in, func() {
			checkJSON(s, func(_, id, f string, a ...any) {
				res.note(finding{ID: "C20:" + id, What: fmt.Sprintf(f, a...), Input: in})
			})
		})
	}
	if len(res.Findings) == 0 {
		textDriver("C20")(r, time.Now().Add(3*time.Second), res)
	}
}

// --- keywords ---

func c21(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	tables := []struct {
		name string
		m    map[string]string
		get  func(string) (string, error)
	}{
		{"GetColumnType", map[string]string{"null": "null", "text": "text", "int": "int", "blob": "blob"}, func(s string) (string, error) { x, e := schema.GetColumnType(s); return string(x), e }},
		{"GetAttributeType", map[string]string{"primary": "primary_key", "unique": "unique", "notnull": "not_null", "default": "default", "min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"}, func(s string) (string, error) { x, e := schema.GetAttributeType(s); return string(x), e }},
		{"GetIndexType", map[string]string{"index": "btree", "unique": "unique_btree", "primary": "primary"}, func(s string) (string, error) { x, e := schema.GetIndexType(s); return string(x), e }},
	}
	var words []string
	for _, t := range tables {
		for k, v := range t.m {
			words = append(words, k, v)
		}
	}
	words = append(words, "", " ", "integer", "primary_key", "fk", "foreign_key", "not_null", "min_length", "btree", "varchar")
	sortStrings(words)
	vary := func(w string) string {
		b := []byte(w)
		for i := range b {
			if g.p(0.4) && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		s := string(b)
		switch g.n(8) {
		case 0:
			s += g.pick(" ", "s", "_", "\n", "1")
		case 1:
			s = g.pick(" ", "x", "\t") + s
		case 2:
			if len(s) > 0 {
				s = s[:len(s)-1]
			}
		}
		return s
	}
	for time.Now().Before(deadline) && res.Evaluations < 200000 && len(res.Findings) == 0 {
		w := vary(pickOf(g, words))
		if g.p(0.1) {
			w = g.garbage()
		}
		for _, t := range tables {
			res.Evaluations++
			res.Distinct++
			guard(res, "C21", w, func() {
				got, err := t.get(w)
				want, ok := t.m[strings.ToLower(w)]
				if ok != (err == nil) || got != want {
					res.note(finding{ID: "C21:" + t.name, What: fmt.Sprintf("%s(%q) = %q, %v; expected %q (keyword: %v)", t.name, w, got, err, want, ok), Input: w})
				}
			})
		}
		res.sample(w)
	}
}

func sortStrings(l []string) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

// --- annotations ---

func c22(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	texts := time.Now().Add(time.Until(deadline) / 3)
	for time.Now().Before(deadline) && res.Evaluations < 100000 && len(res.Findings) == 0 {
		res.Evaluations++
		res.Distinct++
		if g.p(0.3) {
			s := g.garbage()
			if g.p(0.5) {
				s = g.ident() + "(" + s + ")"
			}
			guard(res, "C22", s, func() {
				_, err := utils.ParseAnnotation(s)
				form := len(s) >= 3 && strings.Contains(s[1:], "(") && strings.HasSuffix(s, ")")
				if i := strings.IndexByte(s, '('); i < 0 || !strings.HasSuffix(s, ")") {
					form = false
				}
				if err == nil && !form && !(strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")")) {
					res.note(finding{ID: "C22:form", What: fmt.Sprintf("%q does not have the form target(...) but is decoded without an error", s), Input: s})
				}
				if err != nil && form && strings.IndexByte(s, '(') > 0 {
					res.note(finding{ID: "C22:rejected", What: fmt.Sprintf("%q has the form target(...) but is rejected: %v", s, err), Input: s})
				}
			})
			continue
		}
		an := rAnn{target: g.ident()}
		an.text = an.target + "("
		max := 4
		if g.p(0.1) {
			max = 40
		}
		for i, n := 0, 1+g.n(max); i < n; i++ {
			kv := [2]string{g.ident(), g.lit()}
			if i > 0 {
				an.text += ","
			}
			an.text += kv[0] + "=" + kv[1]
			an.attrs = append(an.attrs, kv)
		}
		an.text += ")"
		res.sample(an.text)
		checkAnnotation(an.text, an, func(_, id, f string, a ...any) {
			res.note(finding{ID: "C22:" + id, What: fmt.Sprintf(f, a...), Input: an.text})
		})
	}
	if len(res.Findings) == 0 {
		_ = texts
		textDriver("C22")(r, time.Now().Add(3*time.Second), res)
	}
}

var _ = json.Marshal
