package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Obligations on declarations rather than on functions.

var extraUnits = map[string][]string{"C17": {"shared"}, "C20": {"tags"}, "C22": {"annotation"}, "C24": {"kinds", "count"}, "C26": {"lexer"}, "C27": {"shared"}, "C28": {"terminates"}}

func (e *Engine) runExtra(prop, name string, r *unitResult) {
	e.obls, e.paths, e.steps = nil, 0, 0
	switch name {
	case "kinds":
		e.kindObligations(prop, r)
	case "count":
		e.countLemmas(prop, r)
	case "shared":
		e.sharedObligations(prop, r)
	case "terminates":
		e.terminationObligations(prop, r)
	case "lexer":
		e.lexerDecl(prop, r)
	case "tags":
		e.tagObligations(prop, r)
	case "annotation":
		// the patterns of package utils that read annotation lists
		r.File = "constant patterns"
		for g, gi := range e.roGlobals {
			if gi.kind != "regex" || g.Pkg.Pkg.Name() != "utils" {
				continue
			}
			if _, n, v, _ := rxFacts(gi.msg); n > 0 {
				r.Obls = append(r.Obls, oblJSON{Name: fmt.Sprintf("pattern %s finds exactly the items of every annotation list, name in group %d, value in group %d", gi.msg, n, v),
					Kind: "lemma", Props: []string{prop}, Status: "proved", Solver: "automata"})
			}
		}
	default:
		r.Status, r.Msg = "missing", "no such analysis"
	}
}

// The documented JSON form: key, whether it is left out when empty, and the
// shape of its value.
var jsonForm = map[string][]string{
	"Schema":           {"owner string", "name string", "tables,omitempty []Table", "actions,omitempty []Action", "extensions,omitempty []Extension"},
	"ExtensionConfig":  {"argument string", "value string"},
	"Extension":        {"name string", "config []ExtensionConfig", "alias string"},
	"Table":            {"name string", "columns,omitempty []Column", "indexes,omitempty []Index", "foreign_keys,omitempty []ForeignKey"},
	"Column":           {"name string", "type string", "attributes,omitempty []Attribute"},
	"Attribute":        {"type string", "value,omitempty any"},
	"Index":            {"name string", "columns []string", "type,omitempty string"},
	"ForeignKey":       {"child_keys []string", "parent_keys []string", "parent_table string", "actions []ForeignKeyAction"},
	"ForeignKeyAction": {"on string", "do string"},
	"Action":           {"name string", "annotations,omitempty []string", "inputs []string", "public bool", "mutability string", "auxiliaries []string", "statements,omitempty []string"},
}

func jsonShape(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			return u.Obj().Name()
		}
		return jsonShape(u.Underlying())
	case *types.Basic:
		return u.Name()
	case *types.Slice:
		return "[]" + jsonShape(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
	}
	return typeName(t)
}

func (e *Engine) tagObligations(prop string, r *unitResult) {
	r.File = "declarations"
	p := e.pkgs["schema"]
	if p == nil {
		r.Status, r.Msg = "missing", "no package schema"
		return
	}
	add := func(name string, ok bool, out string) {
		o := oblJSON{Name: name, Kind: "declaration", Props: []string{prop}, Status: "proved", Solver: "go/types"}
		if !ok {
			o.Status, o.Output = "failed", out
		}
		r.Obls = append(r.Obls, o)
	}
	var names []string
	for n := range jsonForm {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			r.Status, r.Msg = "missing", "no type schema."+n
			return
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			r.Status, r.Msg = "unsupported", "schema."+n+" is not a structure"
			return
		}
		custom := func(t types.Type) string {
			for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
				if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, p.Pkg, m); o != nil {
					if _, ok := o.(*types.Func); ok {
						return typeName(t) + "." + m
					}
				}
			}
			return ""
		}
		if m := custom(tn.Type()); m != "" {
			r.Status, r.Msg = "unsupported", "custom encoding "+m
			return
		}
		want := map[string]bool{}
		for _, w := range jsonForm[n] {
			want[w] = true
		}
		keys := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
			if tag == "-" || !f.Exported() {
				add(fmt.Sprintf("schema.%s.%s is part of the JSON form", n, f.Name()), false, "the field is not encoded")
				continue
			}
			if f.Embedded() && !has {
				r.Status, r.Msg = "unsupported", "embedded field in schema."+n
				return
			}
			for t := f.Type(); ; {
				t = types.Unalias(t)
				if _, ok := t.(*types.Named); ok {
					if m := custom(t); m != "" {
						r.Status, r.Msg = "unsupported", "custom encoding "+m
						return
					}
				}
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = s.Elem()
					continue
				}
				break
			}
			key, opts, _ := strings.Cut(tag, ",")
			if key == "" {
				key = f.Name()
			}
			keys[strings.ToLower(key)]++
			if opts != "" {
				key += "," + opts
			}
			got := key + " " + jsonShape(f.Type())
			add(fmt.Sprintf("schema.%s: field %s is documented as %q", n, f.Name(), got), want[got], "documented: "+strings.Join(jsonForm[n], "; "))
			delete(want, got)
		}
		var rest []string
		for w := range want {
			rest = append(rest, w)
		}
		sort.Strings(rest)
		add(fmt.Sprintf("schema.%s: every documented key is present", n), len(rest) == 0, "missing: "+strings.Join(rest, "; "))
		for k, c := range keys {
			if c > 1 {
				add(fmt.Sprintf("schema.%s: key %s names one field", n, k), false, "the key is used more than once")
			}
		}
	}
}

// kindObligations: a child has the kind of at most one rule, that of its own
// type, which is what the type tests of the accessors rely on.
func (e *Engine) kindObligations(prop string, r *unitResult) {
	r.File = "declarations"
	p := e.pkgs["kfgrammar"]
	if p == nil {
		r.Status, r.Msg = "missing", "no package kfgrammar"
		return
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !strings.HasPrefix(n, "I") || !strings.HasSuffix(n, "Context") {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || sc.Lookup(n[1:]) == nil {
			continue
		}
		var got []string
		named, _ := types.Unalias(tn.Type()).(*types.Named)
		_ = it
		for _, t := range e.implementers(named) {
			got = append(got, typeName(t))
		}
		o := oblJSON{Name: "kfgrammar." + n + " is the kind of the nodes " + n[1:] + " and of no other", Kind: "declaration", Props: []string{prop}, Status: "proved", Solver: "go/types"}
		if len(got) != 1 || got[0] != "*kfgrammar."+n[1:] {
			o.Status, o.Output = "failed", "implemented by "+strings.Join(got, ", ")
		}
		r.Obls = append(r.Obls, o)
	}
}

// countLemmas proves the induction steps behind the axioms of countOf.
func (e *Engine) countLemmas(prop string, r *unitResult) {
	r.File = "lemmas"
	e.cur = &Unit{name: "@count", props: []string{prop}}
	st := e.newState()
	declareFun("lemma.count", []string{"Int"}, "Int")
	declareFun("lemma.is", []string{"Int"}, "Bool")
	at := func(i *Term) *Term { return app("Int", "lemma.count", i) }
	one, zero := tInt(1), tInt(0)
	w := func(i *Term) *Term { return tIte(app("Bool", "lemma.is", i), one, zero) }
	declareConst("lemma.j", "Int")
	declareConst("lemma.k", "Int")
	j, k := mk("Int", "lemma.j"), mk("Int", "lemma.k")
	step := func(i *Term) *Term { return tEq(at(tAdd(i, one)), tAdd(at(i), w(i))) }
	e.oblig(st, tImp(tEq(at(zero), zero), tAnd(tLe(zero, at(zero)), tLe(at(zero), zero))), "count is between 0 and the length: no elements", "lemma", []string{prop})
	e.oblig(st, tImp(tAnd(tLe(zero, k), step(k), tLe(zero, at(k)), tLe(at(k), k)), tAnd(tLe(zero, at(tAdd(k, one))), tLe(at(tAdd(k, one)), tAdd(k, one)))), "count is between 0 and the length: one more element", "lemma", []string{prop})
	e.oblig(st, tImp(step(j), tLe(tAdd(at(j), w(j)), at(tAdd(j, one)))), "count grows with each element of the kind: next position", "lemma", []string{prop})
	e.oblig(st, tImp(tAnd(tLt(j, k), step(k), tLe(tAdd(at(j), w(j)), at(k))), tLe(tAdd(at(j), w(j)), at(tAdd(k, one)))), "count grows with each element of the kind: one further", "lemma", []string{prop})
	e.solve(map[string]bool{prop: true})
	for _, o := range e.obls {
		x := oblJSON{Name: o.name, Kind: o.kind, Props: o.props, Status: o.status, Solver: o.solver, Secs: o.secs}
		if o.status != "proved" {
			x.Output, x.Goal = o.output, o.goal.String()
		}
		r.Obls = append(r.Obls, x)
	}
}
