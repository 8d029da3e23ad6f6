package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	objs    map[int]Val
	fwd     map[int]*Term // published objects
	heap    map[string]*Term
	ghost   map[string]*Term
	alloc   *Term
	facts   []*Term
	factSet map[*Term]bool
	nonnil  map[*Term]bool
	frozen  map[int]bool
	panicV  Val // value being panicked with while deferred functions run
	trace   []string
	refs    []*Term // references allocated on this path
	calls   []*callRec // calls observed by the contract being verified
	cut     bool    // set when the path is known to be infeasible
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, panicV: s.panicV, cut: s.cut}
	n.objs = make(map[int]Val, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.fwd = make(map[int]*Term, len(s.fwd))
	for k, v := range s.fwd {
		n.fwd[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.frozen = make(map[int]bool, len(s.frozen))
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	n.nonnil = make(map[*Term]bool, len(s.nonnil))
	for k, v := range s.nonnil {
		n.nonnil[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.factSet = make(map[*Term]bool, len(s.factSet))
	for k := range s.factSet {
		n.factSet[k] = true
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.refs = s.refs[:len(s.refs):len(s.refs)]
	n.calls = s.calls[:len(s.calls):len(s.calls)]
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue || s.factSet[t] {
		return
	}
	if t == tFalse {
		s.cut = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.factSet[tNot(t)] {
		s.cut = true
	}
	s.factSet[t] = true
	s.facts = append(s.facts, t)
	if t.op != "=>" && t.vars == nil {
		for _, f := range s.facts {
			if f.op == "=>" && f.args[0] == t {
				s.assume(f.args[1])
			}
		}
	} else if t.op == "=>" && s.factSet[t.args[0]] {
		s.assume(t.args[1])
	}
	// remember non-nilness
	if t.op == "not" && t.args[0].op == "=" {
		a := t.args[0].args
		for i := 0; i < 2; i++ {
			if n, ok := intLit(a[i]); ok && n == 0 {
				s.nonnil[a[1-i]] = true
			}
		}
	}
}

// decide evaluates a condition against the facts known syntactically.
func (s *State) decide(c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	if s.factSet[c] {
		return tTrue
	}
	if s.factSet[tNot(c)] {
		return tFalse
	}
	if c.op == "=" && c.sort == "Bool" {
		for i := 0; i < 2; i++ {
			if n, ok := intLit(c.args[i]); ok && n == 0 && s.nonnil[c.args[1-i]] {
				return tFalse
			}
			// x = lit2 when x = lit1 is known
			if isLit(c.args[i]) || distinctConsts[c.args[i]] {
				for _, f := range s.facts {
					if f.op == "=" {
						for j := 0; j < 2; j++ {
							if f.args[j] == c.args[1-i] && tEq(f.args[1-j], c.args[i]) == tFalse {
								return tFalse
							}
						}
					}
				}
			}
		}
	}
	if c.op == "and" {
		all := true
		for _, a := range c.args {
			d := s.decide(a)
			if d == tFalse {
				return tFalse
			}
			if d != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	if c.op == "or" {
		all := true
		for _, a := range c.args {
			d := s.decide(a)
			if d == tTrue {
				return tTrue
			}
			if d != tFalse {
				all = false
			}
		}
		if all {
			return tFalse
		}
	}
	if c.op == "not" {
		return tNot(s.decide(c.args[0]))
	}
	return c
}

// ---------------------------------------------------------------------------

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type Frame struct {
	fn         *ssa.Function
	locals     map[ssa.Value]Val
	binds      []Val
	defers     []*deferred
	isDeferred bool
	loops      map[*ssa.BasicBlock]*activeLoop
	depth      int
	parent     *Frame
	top        bool
}

type deferred struct {
	common *ssa.CallCommon
	fv     Val
	args   []Val
	instr  *ssa.Defer
}

// activeLoop describes how a back edge into a loop head is to be treated.
type activeLoop struct {
	li     *loopInfo
	onBack func(st *State, fr *Frame, prev *ssa.BasicBlock)
	onExit func() bool // true: stop at loop exits (recording)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.locals = make(map[ssa.Value]Val, len(f.locals))
	for k, v := range f.locals {
		n.locals[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = make(map[*ssa.BasicBlock]*activeLoop, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

// Cont receives the outcomes of a call.
type Cont struct {
	ret func(st *State, res []Val)
	pan func(st *State, v Val)
}

// heap names ----------------------------------------------------------------

func fieldHeap(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return "H." + mangle(typeName(t)) + "." + mangle(st.Field(i).Name())
}

func derefHeap(t types.Type) string { return "H.deref." + mangle(typeName(t)) }

func mapHeaps(m *types.Map) (dom, val string) {
	k := mangle(sortOf(m.Key())) + "." + mangle(typeName(types.Unalias(m.Key()).Underlying())) + "." + mangle(typeName(m.Elem()))
	return "MD." + k, "MV." + k
}

var heapSorts = map[string]string{}

func (e *Engine) heapGet(st *State, name, sort string) *Term {
	heapSorts[name] = sort
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := e.initHeap(name, sort)
	st.heap[name] = t
	return t
}

// initHeap is the value of a heap array at entry of the function under
// verification (or, for callees, at the last point where it was unknown).
func (e *Engine) initHeap(name, sort string) *Term {
	n := "@" + name
	declareConst(n, sort)
	return mk(sort, n)
}

func (e *Engine) heapSet(st *State, name string, ref, val *Term) {
	h := e.heapGet(st, name, arrSort("Int", val.sort))
	st.heap[name] = tStore(h, ref, val)
	if e.rec != nil {
		e.rec.heapWrite(name, ref)
	}
}

// map accessors
func (e *Engine) mapDom(st *State, m *types.Map, ref *Term) *Term {
	d, _ := mapHeaps(m)
	return tSelect(e.heapGet(st, d, arrSort("Int", arrSort(sortOf(m.Key()), "Bool"))), ref)
}
func (e *Engine) mapVal(st *State, m *types.Map, ref *Term) *Term {
	_, v := mapHeaps(m)
	return tSelect(e.heapGet(st, v, arrSort("Int", arrSort(sortOf(m.Key()), sortOf(m.Elem())))), ref)
}

// recorder of writes for loop analysis
type recorder struct {
	objs   map[int]map[int]bool // obj id -> fields (-1 = everything)
	fwd    map[int]bool
	heaps  map[string]map[*Term]bool // name -> refs; nil key: unknown
	ghosts map[string]bool
	allocs bool
	parent *recorder
	// loop whose writes are recorded
	loop    *loopInfo
	frameFn *ssa.Function
	mark    int
	allocd  map[*Term]bool
	bounds  []*Term
	n       *Term // iteration number during the dry run
}

func (r *recorder) noteAlloc(t *Term) {
	for ; r != nil; r = r.parent {
		r.allocs = true
		r.allocd[t] = true
	}
}

// noteCond remembers loop-independent terms compared in exit conditions.
func (r *recorder) noteCond(fn *ssa.Function, b *ssa.BasicBlock, ts ...*Term) {
	for ; r != nil; r = r.parent {
		if r.loop == nil || r.frameFn != fn || !r.loop.blocks[b] {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !r.loop.blocks[s] {
				exits = true
			}
		}
		if !exits {
			continue
		}
		all := ts
		if r.n != nil && len(ts) == 2 && ts[0].sort == "Int" && ts[1].sort == "Int" {
			// counting down: c - n compared with a constant
			d := tAdd(tSub(ts[0], ts[1]), r.n)
			all = append(append([]*Term{}, ts...), d, tAdd(d, tInt(1)))
		}
		for _, t := range all {
			if t.sort != "Int" || !isInvariantTerm(t, r.mark) {
				continue
			}
			dup := false
			for _, x := range r.bounds {
				dup = dup || x == t
			}
			if !dup {
				r.bounds = append(r.bounds, t)
			}
		}
	}
}

func newRecorder(p *recorder) *recorder {
	return &recorder{objs: map[int]map[int]bool{}, fwd: map[int]bool{}, heaps: map[string]map[*Term]bool{}, ghosts: map[string]bool{}, allocd: map[*Term]bool{}, parent: p}
}

func (r *recorder) objWrite(id, field int) {
	for ; r != nil; r = r.parent {
		if r.objs[id] == nil {
			r.objs[id] = map[int]bool{}
		}
		r.objs[id][field] = true
	}
}
func (r *recorder) heapWrite(name string, ref *Term) {
	for ; r != nil; r = r.parent {
		if r.heaps[name] == nil {
			r.heaps[name] = map[*Term]bool{}
		}
		r.heaps[name][ref] = true
	}
}
func (r *recorder) ghostWrite(n string) {
	for ; r != nil; r = r.parent {
		r.ghosts[n] = true
	}
}

func (r *recorder) signature() string {
	var ss []string
	for id, fs := range r.objs {
		for f := range fs {
			ss = append(ss, fmt.Sprintf("o%d.%d", id, f))
		}
	}
	for h, rs := range r.heaps {
		for t := range rs {
			if t == nil {
				ss = append(ss, h+"*")
			} else {
				ss = append(ss, fmt.Sprintf("%s@%d", h, t.id))
			}
		}
	}
	for g := range r.ghosts {
		ss = append(ss, "g"+g)
	}
	sort.Strings(ss)
	return strings.Join(ss, ";")
}
