package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Patterns of the program and annotation lists.  An annotation list is
// item(,item)* with items of the language below; applied to such a list a
// pattern yields exactly its items if, read from the start of an item x with
// anything that may follow it (nothing, or a comma and more), its preferred
// (leftmost-first) match is x with the same group boundaries, and no match
// starts at a comma.  Both languages are automata, so this is decided by
// reachability in the product of the item automaton with the ordered set of
// runs of the pattern.

const annItem = `([a-zA-Z][a-zA-Z0-9_]*)=([0-9]+|'(?s:[^'\\]|\\.)*')`

type rxThread struct {
	pc  uint32
	dev bool
}

type rx struct{ p *syntax.Prog }

func compileRx(pat string) (*rx, *syntax.Regexp, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, nil, err
	}
	n := re.MaxCap()
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, nil, err
	}
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth {
			return nil, nil, fmt.Errorf("position test in the pattern")
		}
	}
	re.Cap = n
	return &rx{p}, re, nil
}

type rxStep struct {
	pc uint32
	ev string // boundaries passed on the way
}

// closure: the character instructions and ends reachable from pc, with the
// group boundaries (of the groups looked at) passed on the way.
func (x *rx) closure(pc uint32, mark map[uint32]string) []rxStep {
	type key struct {
		pc uint32
		ev string
	}
	seen := map[key]bool{}
	var out []rxStep
	var walk func(pc uint32, ev string)
	walk = func(pc uint32, ev string) {
		if seen[key{pc, ev}] {
			return
		}
		seen[key{pc, ev}] = true
		in := &x.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out, ev)
			walk(in.Arg, ev)
		case syntax.InstNop:
			walk(in.Out, ev)
		case syntax.InstCapture:
			if m := mark[in.Arg]; m != "" && !strings.Contains(ev, m) {
				ev += m
			}
			walk(in.Out, ev)
		case syntax.InstFail:
		default:
			b := []byte(ev)
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			out = append(out, rxStep{pc, string(b)})
		}
	}
	walk(pc, "")
	return out
}

// closureOnce: the same in order of preference, leaving out what a preferred
// run has reached already.
func (x *rx) closureOnce(pc uint32, mark map[uint32]string, visited map[uint32]bool) []rxStep {
	var out []rxStep
	var walk func(pc uint32, ev string)
	walk = func(pc uint32, ev string) {
		if visited[pc] {
			return
		}
		visited[pc] = true
		in := &x.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out, ev)
			walk(in.Arg, ev)
		case syntax.InstNop:
			walk(in.Out, ev)
		case syntax.InstCapture:
			if m := mark[in.Arg]; m != "" && !strings.Contains(ev, m) {
				ev += m
			}
			walk(in.Out, ev)
		case syntax.InstFail:
		default:
			b := []byte(ev)
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			out = append(out, rxStep{pc, string(b)})
		}
	}
	walk(pc, "")
	return out
}

func (x *rx) chars(set map[rune]bool) {
	for i := range x.p.Inst {
		in := &x.p.Inst[i]
		for j := 0; j+1 < len(in.Rune); j += 2 {
			set[in.Rune[j]] = true
			set[in.Rune[j+1]+1] = true
		}
		if len(in.Rune) == 1 {
			for r := range foldOrbit(in.Rune[0]) {
				set[r] = true
				set[r+1] = true
			}
		}
	}
}

func foldOrbit(r rune) map[rune]bool {
	m := map[rune]bool{r: true}
	for c := simpleFold(r); c != r; c = simpleFold(c) {
		m[c] = true
	}
	return m
}

type rxState struct {
	item uint32 // instruction of the item automaton, or restAny
	th   []rxThread
	good bool // the preferred match so far is the item with its boundaries
}

const restAny = ^uint32(0) // after the comma

// annotationFact decides this for the groups g (name) and h (value).
func annotationFact(pat string, g, h int) (bool, string) {
	R, re, err := compileRx(pat)
	if err != nil {
		return false, err.Error()
	}
	if g > re.Cap || h > re.Cap {
		return false, "no such group"
	}
	L, _, err := compileRx(annItem)
	if err != nil {
		return false, err.Error()
	}
	marks := func(g, h int) map[uint32]string {
		return map[uint32]string{uint32(2 * g): "a", uint32(2*g + 1): "b", uint32(2 * h): "c", uint32(2*h + 1): "d"}
	}
	lm, rm := marks(1, 2), marks(g, h)
	set := map[rune]bool{0: true, '\n': true, '\n' + 1: true, ',': true, ',' + 1: true}
	L.chars(set)
	R.chars(set)
	var alpha []rune
	for r := range set {
		if r <= 0x10ffff {
			alpha = append(alpha, r)
		}
	}
	sort.Slice(alpha, func(i, j int) bool { return alpha[i] < alpha[j] })

	// nothing starts at a comma
	for _, s := range R.closure(uint32(R.p.Start), rm) {
		in := &R.p.Inst[s.pc]
		if in.Op == syntax.InstMatch {
			return false, "the pattern matches the empty text"
		}
		if in.MatchRune(',') {
			return false, "the pattern may start at a comma"
		}
	}
	key := func(s rxState) string { return fmt.Sprint(s) }
	type qe struct {
		s rxState
		w string
	}
	start := rxState{uint32(L.p.Start), []rxThread{{uint32(R.p.Start), false}}, false}
	seen := map[string]bool{key(start): true}
	queue := []qe{{start, ""}}
	for len(queue) > 0 {
		if len(seen) > 200000 {
			return false, "too many states"
		}
		q := queue[0]
		queue = queue[1:]
		push := func(s rxState, w string) {
			if k := key(s); !seen[k] {
				seen[k] = true
				queue = append(queue, qe{s, w})
			}
		}
		// the runs of R at this position in order of preference; a run that
		// ends cuts off the less preferred ones
		step := func(ev string, end bool) (out []rxThread, good bool) {
			good = q.s.good
			visited := map[uint32]bool{}
			for _, t := range q.s.th {
				for _, s := range R.closureOnce(t.pc, rm, visited) {
					d := t.dev || s.ev != ev
					if R.p.Inst[s.pc].Op == syntax.InstMatch {
						return out, end && !d
					}
					out = append(out, rxThread{s.pc, d})
				}
			}
			return
		}
		next := func(th []rxThread, c rune) (out []rxThread) {
			for _, t := range th {
				if in := &R.p.Inst[t.pc]; in.MatchRune(c) {
					out = append(out, rxThread{in.Out, t.dev})
				}
			}
			return
		}
		if q.s.item == restAny {
			th, good := step("", false)
			if !good {
				return false, fmt.Sprintf("the pattern prefers another match in %q", q.w)
			}
			for _, c := range alpha {
				if n := next(th, c); len(n) > 0 {
					push(rxState{restAny, n, good}, q.w+string(c))
				}
			}
			continue
		}
		for _, ls := range L.closure(q.s.item, lm) {
			in := &L.p.Inst[ls.pc]
			if in.Op == syntax.InstMatch {
				th, good := step(ls.ev, true)
				if !good {
					return false, fmt.Sprintf("the pattern does not match exactly the item %q", q.w)
				}
				if n := next(th, ','); len(n) > 0 {
					push(rxState{restAny, n, good}, q.w+",")
				}
				continue
			}
			th, good := step(ls.ev, false)
			for _, c := range alpha {
				if in.MatchRune(c) {
					push(rxState{in.Out, next(th, c), good}, q.w+string(c))
				}
			}
		}
	}
	return true, ""
}

var rxMemo = map[string][4]any{}

// rxFacts: groups, name group, value group, reason.
func rxFacts(pat string) (groups, name, value int, why string) {
	if m, ok := rxMemo[pat]; ok {
		return m[0].(int), m[1].(int), m[2].(int), m[3].(string)
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return -1, 0, 0, err.Error()
	}
	groups = re.MaxCap()
	for g := 1; g <= groups && name == 0; g++ {
		for h := g + 1; h <= groups; h++ {
			ok, w := annotationFact(pat, g, h)
			if ok {
				name, value = g, h
				break
			}
			if why == "" {
				why = w
			}
		}
	}
	if name > 0 {
		why = ""
	}
	rxMemo[pat] = [4]any{groups, name, value, why}
	return
}

func (e *Engine) assumeRegex(st *State, r *Term, pat string) {
	l := strLit(pat)
	g, n, v, why := rxFacts(pat)
	st.assume(tNot(tEq(r, tInt(0))))
	st.assume(tEq(app(sStr, "P.reText", r), l))
	st.assume(tEq(app("Int", "P.reGroups", l), tInt(int64(g))))
	st.assume(tEq(app("Int", "P.reName", l), tInt(int64(n))))
	st.assume(tEq(app("Int", "P.reValue", l), tInt(int64(v))))
	if why != "" {
		e.notes["pattern "+pat+" does not read annotation lists: "+why] = true
	}
}

// regexConst: the constant pattern a call compiles.
func regexConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	f := c.Call.StaticCallee()
	if f == nil || f.String() != "regexp.MustCompile" {
		return "", false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	s := constTermStr(k)
	if _, err := syntax.Parse(s, syntax.Perl); err != nil {
		return "", false
	}
	return s, true
}

func simpleFold(r rune) rune { return unicode.SimpleFold(r) }
