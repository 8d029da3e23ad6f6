package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

func init() {
	drivers["C26"] = driver{"all pairs of token texts with and without a separator, random sequences of token texts, truncated and damaged token texts and single characters; every case is non-trivial", c26, false}
}

type lexRule struct {
	typ  int
	name string
	re   *regexp.Regexp
}

var lexRules []lexRule

func loadLexRules() error {
	b, err := os.ReadFile(os.Getenv("KF_SPECS") + "/tokens.txt")
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || strings.HasPrefix(l, "# ") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		r := lexRule{name: f[1]}
		fmt.Sscan(f[0], &r.typ)
		r.re = regexp.MustCompile("^(?:" + f[2] + ")")
		r.re.Longest()
		lexRules = append(lexRules, r)
	}
	return nil
}

// refTokens cuts a text by the documented rules; bad: some character starts no token.
func refTokens(text string) (out []string, bad bool) {
	rest := string([]rune(text))
	for rest != "" {
		best, typ, name := 0, 0, ""
		for _, r := range lexRules {
			if m := r.re.FindStringIndex(rest); m != nil && m[1] > best {
				best, typ, name = m[1], r.typ, r.name
			}
		}
		if best == 0 {
			return out, true
		}
		if typ != 0 {
			out = append(out, fmt.Sprintf("%d %s %q", typ, name, rest[:best]))
		}
		rest = rest[best:]
	}
	return out, false
}

func realTokens(text string) (out []string, errs int, panicked any) {
	defer func() { panicked = recover() }()
	lst := utils.NewErrorListener()
	lx := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(text))
	lx.RemoveErrorListeners()
	lx.AddErrorListener(lst)
	ts := antlr.NewCommonTokenStream(lx, antlr.TokenDefaultChannel)
	ts.Fill()
	for _, t := range ts.GetAllTokens() {
		if t.GetTokenType() == antlr.TokenEOF || t.GetChannel() != 0 {
			continue
		}
		n := "?"
		if k := t.GetTokenType(); k > 0 && k < len(lx.SymbolicNames) {
			n = lx.SymbolicNames[k]
		}
		out = append(out, fmt.Sprintf("%d %s %q", t.GetTokenType(), n, t.GetText()))
	}
	return out, len(lst.ErrorList), nil
}

func c26(r *rand.Rand, deadline time.Time, res *result) {
	if err := loadLexRules(); err != nil {
		res.Err = err.Error()
		return
	}
	texts := []string{"select * from a", "SeLeCt a", "delete\t\n\rx", "with", "insert", "update x{", "'a'", `'\''`, `'\\'`, "''", "'\\\n'", "'a\nb'", "'a", "//", "// a\r\nb", "//a", "/**/", "/***/", "/* * / */", "/* a */ */", "/*", "/", "a_1", "_a", "1a", "0", "007", "#a", "$a1", "@a_b", "# a", "#1", "é", "\x00", "\u212a", "\u017felect a", "a\u00a0b", "\"", "`", "?", "[", "\\", "^", "!", "!=", "<>", "<=>", "||||", "===", " ", "\t", "\f", "\v", "\r", "select ;", "select  ;", "select }", "select a;b", "select\n;", "selecta", "select1 ", "select_ a", "with(", "dafault", "default", "minlen", "min", "minle", "foreign_key", "foreign_keys", "fk", "ref", "references", "no_action", "noaction", "ON_UPDATE", "Table", "TABLE"}
	var pieces []string
	for _, l := range lexRules {
		if l.typ > 0 && l.typ < 73 {
			for _, t := range []string{strings.TrimLeft(l.re.String()[4:len(l.re.String())-1], "")} {
				t = strings.ReplaceAll(t, `\`, "")
				if strings.Contains(t, "[") {
					t = regexp.MustCompile(`\[(.)(.)\]`).ReplaceAllString(t, "$1")
				}
				pieces = append(pieces, t)
			}
		}
	}
	pieces = append(pieces, "ident", "x9_", "#i", "$v", "@n", "42", "'s'", "select a ", " ", "\n", "/*c*/", "//c\n", "é")
	var hints []string
	if h := os.Getenv("KF_HINT"); h != "" {
		hints = strings.Split(h, "\x01")
	}
	n := 0
	g := &gen{r: r}
	for time.Now().Before(deadline) && (len(res.Findings) == 0 || !*stop) {
		var text string
		np := len(pieces)
		i := n
		n++
		switch {
		case i < len(hints):
			text = hints[i]
		case i-len(hints) < len(texts):
			text = texts[i-len(hints)]
		case i-len(hints)-len(texts) < 2*np*np:
			j := i - len(hints) - len(texts)
			text = pieces[j/2%np] + []string{"", " "}[j%2] + pieces[j/2/np]
		case g.p(0.4):
			p := []byte(g.pick(append(pieces, "'a'", "select x", "with y", "insert a", "/**/", "//a")...))
			c := byte(g.n(128))
			k := g.n(len(p) + 1)
			if k < len(p) && g.p(0.5) {
				p[k] = c
			} else {
				p = append(p[:k:k], append([]byte{c}, p[k:]...)...)
			}
			text = string(p) + g.pick("", " ", " x", "\n")
		default:
			var b strings.Builder
			for k := g.n(8); k >= 0; k-- {
				p := pieces[g.n(np)]
				if g.p(0.15) {
					p = strings.ToUpper(p)
				}
				if g.p(0.15) {
					p = p[:g.n(len(p)+1)]
				}
				b.WriteString(p)
				if g.p(0.1) {
					b.WriteString(g.garbage())
				}
				if g.p(0.1) {
					b.WriteRune(rune(g.n(0x3000)))
				}
				if g.p(0.5) {
					b.WriteByte(' ')
				}
			}
			text = b.String()
		}
		res.Evaluations++
		res.Distinct++
		note := func(id, f string, a ...any) {
			res.note(finding{ID: "C26:" + id, What: fmt.Sprintf(f, a...) + fmt.Sprintf(" -- input: %q", text), Input: text})
		}
		want, bad := refTokens(text)
		got, errs, pan := realTokens(text)
		switch {
		case pan != nil:
			note("panic", "the lexer panics: %v", pan)
		case bad && errs == 0:
			note("unreported", "a character outside the lexical rules is not reported, tokens %v", got)
		case !bad && errs > 0:
			note("reported", "text within the lexical rules is reported as an error")
		case !bad && strings.Join(got, "\n") != strings.Join(want, "\n"):
			note("tokens", "tokens %v instead of %v", got, want)
		}
		// what the parser is given of the source characters
		if g.p(0.02) {
			ws := ""
			for k := g.n(4); k >= 0; k-- {
				ws += g.pick(" ", "\t", "\n", "\r", "\r\n", "\n\n")
			}
			q := "select" + ws + "1," + ws + "2"
			src := "database d;action a($x) public {" + q + ";}"
			var a any
			var err error
			func() {
				defer func() { recover() }()
				a, err = kfparser.Parse(src)
			}()
			if s, ok := a.(*schema.Schema); ok && err == nil && len(s.Actions) == 1 && !strings.Contains(strings.Join(s.Actions[0].Statements, ""), q) {
				res.note(finding{ID: "C26:parsed", What: fmt.Sprintf("the statement is %q -- input: %q", s.Actions[0].Statements, src), Input: src})
			}
		}
		// the text as part of a source the parser reads
		if bad && g.p(0.2) {
			var err error
			func() {
				defer func() { recover() }()
				_, err = kfparser.Parse("database d;" + text)
			}()
			if err == nil {
				note("accepted", "a source with a character outside the lexical rules is accepted")
			}
		}
	}
}
