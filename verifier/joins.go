package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Paths that arrive at the same loop are joined before the loop is analysed
// when the contract says so (or when there are too many paths otherwise): what
// is the same on all of them is kept, everything else is forgotten, and the
// invariants have to hold on each of them.

type loopEntry struct {
	st   *State
	fr   *Frame
	prev *ssa.BasicBlock
	k    Cont
}

// deferLoop puts an arrival aside; it reports whether it did.
func (e *Engine) deferLoop(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State, k Cont) bool {
	if !e.joining || e.rec != nil || e.mute || !fr.top || len(fr.loops) > 0 || prev == nil {
		return false
	}
	if e.pending == nil {
		e.pending = map[*loopInfo][]*loopEntry{}
	}
	e.pending[li] = append(e.pending[li], &loopEntry{st, fr, prev, k})
	return true
}

func (e *Engine) runPending() {
	for len(e.pending) > 0 {
		var ls []*loopInfo
		for li := range e.pending {
			ls = append(ls, li)
		}
		// a loop that another pending one can lead to comes later
		sort.Slice(ls, func(i, j int) bool { return ls[i].head.Index < ls[j].head.Index })
		li := ls[0]
		for _, c := range ls {
			ok := true
			for _, d := range ls {
				if d != c && reaches(d.head, c.head) {
					ok = false
				}
			}
			if ok {
				li = c
				break
			}
		}
		es := e.pending[li]
		delete(e.pending, li)
		if len(es) == 1 {
			e.loopFrom(es[0].fr, li, es[0].st, e.loopPhis(es[0].fr, li, es[0].prev, es[0].st), nil, es[0].k)
			continue
		}
		e.joinLoop(li, es)
	}
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(a)
}

type initState struct {
	st  *State
	phi map[*ssa.Phi]Val
}

func (e *Engine) joinLoop(li *loopInfo, es []*loopEntry) {
	var inits []*initState
	var all [][]*phiInfo
	for _, x := range es {
		ps := e.loopPhis(x.fr, li, x.prev, x.st)
		in := &initState{st: x.st, phi: map[*ssa.Phi]Val{}}
		for _, p := range ps {
			in.phi[p.phi] = p.init
		}
		inits = append(inits, in)
		all = append(all, ps)
	}
	a := es[0]
	st := a.st.clone()
	// facts common to all
	st.facts, st.factSet = nil, map[*Term]bool{}
	for _, f := range a.st.facts {
		ok := true
		for _, x := range es[1:] {
			ok = ok && x.st.factSet[f]
		}
		if ok {
			st.facts = append(st.facts, f)
			st.factSet[f] = true
		}
	}
	for t := range st.nonnil {
		for _, x := range es[1:] {
			if !x.st.nonnil[t] {
				delete(st.nonnil, t)
			}
		}
	}
	same := func(f func(*State) *Term) bool {
		for _, x := range es[1:] {
			if f(x.st) != f(a.st) {
				return false
			}
		}
		return true
	}
	if !same(func(s *State) *Term { return s.alloc }) {
		st.alloc = fresh("Int", "alloc")
		st.assume(tLe(e.cur.alloc0, st.alloc))
	}
	heaps := map[string]bool{}
	for _, x := range es {
		for h := range x.st.heap {
			heaps[h] = true
		}
		if len(x.st.calls) != len(a.st.calls) || x.st.panicV != nil || len(x.fr.defers) != len(a.fr.defers) {
			unsup("paths that cannot be joined")
		}
		for i := range x.st.calls {
			if x.st.calls[i] != a.st.calls[i] {
				unsup("paths that cannot be joined")
			}
		}
		for o := range x.st.frozen {
			st.frozen[o] = true
		}
	}
	var hn []string
	for h := range heaps {
		hn = append(hn, h)
	}
	sort.Strings(hn)
	for _, h := range hn {
		so, ok := heapSorts[h]
		if !ok {
			unsup("paths that cannot be joined")
		}
		if !same(func(s *State) *Term { return e.heapGet(s, h, so) }) {
			st.heap[h] = fresh(so, h)
		}
	}
	ghosts := map[string]bool{}
	for _, x := range es {
		for g := range x.st.ghost {
			ghosts[g] = true
		}
	}
	for g := range ghosts {
		if !same(func(s *State) *Term { return s.ghost[g] }) {
			var t *Term
			if strings.HasPrefix(g, "loop:") {
				delete(st.ghost, g)
				continue
			}
			for _, x := range es {
				if x.st.ghost[g] != nil {
					t = x.st.ghost[g]
				} else {
					unsup("paths that cannot be joined")
				}
			}
			st.ghost[g] = fresh(t.sort, g)
		}
	}
	var ids []int
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		eq, have := true, true
		for _, x := range es[1:] {
			v, ok := x.st.objs[id]
			have = have && ok && x.st.fwd[id] == a.st.fwd[id]
			eq = eq && ok && sameVal(v, a.st.objs[id])
		}
		if !have {
			delete(st.objs, id)
			delete(st.fwd, id)
			continue
		}
		if eq {
			continue
		}
		t := e.objType(id)
		if t == nil {
			unsup("paths that cannot be joined")
		}
		if v, ok := a.st.objs[id].(*ArrVal); ok {
			st.objs[id] = &ArrVal{elem: v.elem, term: fresh(arrSort("Int", sortOf(v.elem)), "arr")}
			continue
		}
		st.objs[id] = e.symVal(st, t, "obj")
	}
	n := 0
	for n < len(a.st.trace) {
		ok := true
		for _, x := range es[1:] {
			ok = ok && n < len(x.st.trace) && x.st.trace[n] == a.st.trace[n]
		}
		if !ok {
			break
		}
		n++
	}
	st.trace = append(append([]string{}, a.st.trace[:n]...), e.where(li.head.Instrs[len(li.head.Instrs)-1])+" joined")
	fr := a.fr.clone()
	join := func(vs []Val, v ssa.Value) (r Val) {
		eq := true
		for _, x := range vs[1:] {
			eq = eq && x != nil && sameVal(x, vs[0])
		}
		if eq {
			return vs[0]
		}
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(unsupported); ok {
					r = nil
					return
				}
				panic(x)
			}
		}()
		return e.symVal(st, v.Type(), "join")
	}
	var vals []ssa.Value
	for v := range fr.locals {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		var vs []Val
		for _, x := range es {
			vs = append(vs, x.fr.locals[v])
		}
		missing := false
		for _, y := range vs {
			missing = missing || y == nil
		}
		if missing {
			delete(fr.locals, v)
			continue
		}
		if r := join(vs, v); r != nil {
			fr.locals[v] = r
		} else {
			delete(fr.locals, v)
		}
	}
	var phis []*phiInfo
	for i, p := range all[0] {
		var vs []Val
		for _, ps := range all {
			vs = append(vs, ps[i].init)
		}
		r := join(vs, p.phi)
		if r == nil {
			unsup("paths that cannot be joined")
		}
		phis = append(phis, &phiInfo{phi: p.phi, init: r, linear: p.linear, step: p.step})
	}
	e.loopFrom(fr, li, st, phis, inits, a.k)
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *PtrVal:
		y, ok := b.(*PtrVal)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !sameVal(x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}
