package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
)

func init() {
	drivers["C24"] = driver{"syntax tree nodes of every kind with random lists of children (0-7, rule nodes of a few kinds and tokens), every accessor of the node and every index -1..8 compared with a direct count over the children; every case is non-trivial", c24, false}
}

// ctxTypes: the node types, as the visitor interface lists them.
func ctxTypes() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	v := reflect.TypeOf((*kfgrammar.KuneiformParserVisitor)(nil)).Elem()
	for i := 0; i < v.NumMethod(); i++ {
		f := v.Method(i)
		if strings.HasPrefix(f.Name, "Visit") && f.Type.NumIn() == 1 && f.Type.In(0).Kind() == reflect.Ptr {
			m[strings.TrimPrefix(f.Name, "Visit")] = f.Type.In(0)
		}
	}
	return m
}

func newNode(t reflect.Type) antlr.ParserRuleContext {
	n := reflect.New(t.Elem()).Interface().(antlr.ParserRuleContext)
	b := reflect.ValueOf(n).Elem().FieldByName("BaseParserRuleContext").Addr().Interface().(*antlr.BaseParserRuleContext)
	antlr.InitBaseParserRuleContext(b, nil, -1)
	return n
}

// tokenNumber finds KuneiformParserX by name.
func tokenNumbers() map[string]int {
	m := map[string]int{}
	p := kfgrammar.NewKuneiformParser(nil)
	for i, s := range p.SymbolicNames {
		m[s] = i
	}
	return m
}

func c24(r *rand.Rand, deadline time.Time, res *result) {
	kinds := ctxTypes()
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	toks := tokenNumbers()
	for time.Now().Before(deadline) && (len(res.Findings) == 0 || !*stop) {
		for _, name := range names {
			if len(res.Findings) > 0 && *stop {
				return
			}
			c24Node(r, name, kinds, names, toks, res)
		}
	}
}

func c24Node(r *rand.Rand, name string, kinds map[string]reflect.Type, names []string, toks map[string]int, res *result) {
	n := newNode(kinds[name])
	v := reflect.ValueOf(n)
	t := v.Type()
	// kinds the accessors of this node ask for
	var wantKinds, wantToks []string
	for i := 0; i < t.NumMethod(); i++ {
		m := strings.TrimPrefix(t.Method(i).Name, "All")
		if kinds[m] != nil {
			wantKinds = append(wantKinds, m)
		} else if toks[m] > 0 {
			wantToks = append(wantToks, m)
		}
	}
	var tree []antlr.Tree
	var desc []string
	for i, k := 0, r.Intn(8); i < k; i++ {
		switch {
		case len(wantKinds) > 0 && r.Intn(3) > 0 || len(wantToks) == 0:
			k := names[r.Intn(len(names))]
			if len(wantKinds) > 0 && r.Intn(5) > 0 {
				k = wantKinds[r.Intn(len(wantKinds))]
			}
			c := newNode(kinds[k])
			n.AddChild(c)
			tree = append(tree, c)
			desc = append(desc, k)
		default:
			k := wantToks[r.Intn(len(wantToks))]
			c := n.AddTokenNode(antlr.NewCommonToken(&antlr.TokenSourceCharStreamPair{}, toks[k], 0, 0, 0))
			tree = append(tree, c)
			desc = append(desc, k)
		}
	}
	in := name + "[" + strings.Join(desc, " ") + "]"
	res.Evaluations++
	res.Distinct++
	if len(res.Samples) < 4 {
		res.Samples = append(res.Samples, in)
	}
	note := func(m, f string, a ...any) {
		res.note(finding{ID: "C24:" + name + "." + m, What: fmt.Sprintf(f, a...) + " -- node: " + in, Input: in})
	}
	isNil := func(x reflect.Value) bool {
		return !x.IsValid() || (x.Kind() == reflect.Interface || x.Kind() == reflect.Ptr) && x.IsNil()
	}
	same := func(x reflect.Value, c antlr.Tree) bool {
		return !isNil(x) && x.Interface() == any(c)
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		what := strings.TrimPrefix(m.Name, "All")
		var want []antlr.Tree
		switch {
		case kinds[what] != nil:
			for _, c := range tree {
				if reflect.TypeOf(c) == kinds[what] {
					want = append(want, c)
				}
			}
		case toks[what] > 0:
			for _, c := range tree {
				if tn, ok := c.(antlr.TerminalNode); ok && tn.GetSymbol().GetTokenType() == toks[what] {
					want = append(want, c)
				}
			}
		default:
			continue
		}
		guard(res, "C24:"+name+"."+m.Name, in, func() {
			f := v.Method(i)
			switch {
			case what != m.Name: // AllX
				out := f.Call(nil)[0]
				ok := out.Len() == len(want)
				for j := 0; ok && j < len(want); j++ {
					ok = same(out.Index(j), want[j])
				}
				if !ok {
					note(m.Name, "%s() returned %d nodes, or not the %d children of that kind in order", m.Name, out.Len(), len(want))
				}
			case f.Type().NumIn() == 1:
				for j := -1; j < 9; j++ {
					out := f.Call([]reflect.Value{reflect.ValueOf(j)})[0]
					if j >= 0 && j < len(want) {
						if !same(out, want[j]) {
							note(m.Name, "%s(%d) is not child number %d of that kind", m.Name, j, j)
						}
					} else if !isNil(out) {
						note(m.Name, "%s(%d) returned a child although there are %d of that kind", m.Name, j, len(want))
					}
				}
			case f.Type().NumIn() == 0:
				out := f.Call(nil)[0]
				if len(want) == 0 && !isNil(out) {
					note(m.Name, "%s() returned a child although there is none of that kind", m.Name)
				}
				if len(want) > 0 && !same(out, want[0]) {
					note(m.Name, "%s() is not the first child of that kind", m.Name)
				}
			}
		})
	}
	guard(res, "C24:"+name+".Accept", in, func() {
		rv := &dispatch{}
		out := n.Accept(rv)
		if len(rv.got) != 1 || rv.got[0] != "Visit"+name+" "+fmt.Sprintf("%p", n) || out != "result of Visit"+name {
			note("Accept", "visiting the node called %v and returned %v", rv.got, out)
		}
		pv := &plain{}
		out = n.Accept(pv)
		if len(pv.got) != 1 || pv.got[0] != antlr.RuleNode(n) || out != "children" {
			note("Accept", "visiting the node with another visitor called %v and returned %v", pv.got, out)
		}
		if n.GetRuleContext() != antlr.RuleContext(n) {
			note("GetRuleContext", "GetRuleContext is not the node")
		}
	})
}

type plain struct {
	antlr.BaseParseTreeVisitor
	got []antlr.RuleNode
}

func (p *plain) VisitChildren(n antlr.RuleNode) any { p.got = append(p.got, n); return "children" }
