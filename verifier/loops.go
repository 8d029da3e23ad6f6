package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// loopEnv: counters of enclosing loops, by the name the contract gives them.
type cand struct {
	name  string
	props []string
	// eval gives the candidate at a state; n is the number of completed
	// iterations; loc maps phi -> value
	eval  func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term
	spec  bool // written in a contract (not generated)
	must  bool
	alive bool
	secs  float64
}

type phiInfo struct {
	phi    *ssa.Phi
	init   Val
	linear bool
	step   int64
}

func (e *Engine) enterLoop(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State, k Cont) {
	if prev == nil {
		unsup("loop at function entry")
	}
	if e.deferLoop(fr, li, prev, st, k) {
		return
	}
	e.loopFrom(fr, li, st, e.loopPhis(fr, li, prev, st), nil, k)
}

// loopPhis: the values the phis of a loop head have on entry.
func (e *Engine) loopPhis(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State) []*phiInfo {
	var phis []*phiInfo
	pi := -1
	for i, p := range li.head.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range li.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph := &phiInfo{phi: p, init: e.val(fr, st, p.Edges[pi])}
		ph.linear, ph.step = linearPhi(p, li)
		phis = append(phis, ph)
	}
	return phis
}

// loopFrom analyses a loop entered in st; when st joins several states, inits
// are those.
func (e *Engine) loopFrom(fr *Frame, li *loopInfo, st *State, phis []*phiInfo, inits []*initState, k Cont) {
	mark := declOrder

	// 1. what does the loop write?
	mod := newRecorder(nil)
	var bounds []*Term
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop write analysis does not converge")
		}
		st1, fr1 := st.clone(), fr.clone()
		n := fresh("Int", "n.dry")
		e.havoc(st1, mod, st, mark)
		e.setPhis(fr1, st1, phis, n, true)
		// the parent recorder (of an enclosing loop's dry run) sees the same writes
		rec := newRecorder(e.rec)
		rec.loop, rec.frameFn, rec.mark, rec.n = li, fr.fn, mark, n
		saved := e.rec
		e.rec = rec
		objMax := objCount
		fr1.loops[li.head] = &activeLoop{li: li, onBack: func(*State, *Frame, *ssa.BasicBlock) {}, onExit: func() bool { return true }}
		e.runFrom(fr1, li.head, 0, st1, Cont{ret: func(*State, []Val) {}, pan: func(*State, Val) {}})
		e.rec = saved
		for id := range rec.objs {
			if id > objMax {
				delete(rec.objs, id)
			}
		}
		bounds = rec.bounds
		before := mod.signature()
		mod.merge(rec, mark)
		if mod.signature() == before && mod.allocs == (mod.allocs || rec.allocs) && round > 0 {
			break
		}
	}
	if len(mod.fwd) > 0 {
		for id := range mod.fwd {
			if _, ok := st.objs[id]; ok {
				// published inside the loop: publish it before
				for _, v := range fr.locals {
					if p, ok := v.(*PtrVal); ok && p.obj.id == id {
						e.publish(st, p.obj)
						break
					}
				}
			}
		}
	}

	// 2. arbitrary iteration
	hs := st.clone()
	n := fresh("Int", "n")
	hs.assume(tLe(tInt(0), n))
	e.havoc(hs, mod, st, mark)
	hf := fr.clone()
	e.setPhis(hf, hs, phis, n, false)
	headPhi := func(p *ssa.Phi) Val { return hf.locals[p] }
	initPhi := func(p *ssa.Phi) Val {
		for _, ph := range phis {
			if ph.phi == p {
				return ph.init
			}
		}
		return nil
	}

	// 3. candidates
	if e.rec != nil {
		// only recording writes of an enclosing loop
		hf.loops[li.head] = &activeLoop{li: li, onBack: func(*State, *Frame, *ssa.BasicBlock) {}, onExit: func() bool { return false }}
		e.runFrom(hf, li.head, 0, hs, k)
		return
	}
	cands, binds := e.candidates(fr, li, st, hs, phis, mod, bounds, n)
	key := fmt.Sprintf("%s/%d/%s", fr.fn, li.ord, strings.Join(st.trace, ";"))
	// initiation
	if inits == nil {
		e.filterInit(st, cands, initPhi, key)
	}
	for _, in := range inits {
		in := in
		e.filterInit(in.st, cands, func(p *ssa.Phi) Val { return in.phi[p] }, key)
	}
	// 4. Houdini
	for iter := 0; ; iter++ {
		if iter > 30 {
			unsup("invariant search does not converge")
		}
		st1, fr1 := hs.clone(), hf.clone()
		for nm, t := range binds {
			st1.ghost["loop:"+nm] = t
		}
		for _, c := range cands {
			if c.alive {
				st1.assume(c.eval(st1, n, headPhi))
			}
		}
		any := false
		for _, c := range cands {
			any = any || c.alive
		}
		if !any {
			break
		}
		var backs []*backOb
		savedMute := e.mute
		e.mute = true
		fr1.loops[li.head] = &activeLoop{li: li, onExit: func() bool { return true }, onBack: func(bst *State, bfr *Frame, prev *ssa.BasicBlock) {
			if bst.cut {
				return
			}
			pj := -1
			for i, p := range li.head.Preds {
				if p == prev {
					pj = i
				}
			}
			nv := map[*ssa.Phi]Val{}
			for _, ph := range phis {
				nv[ph.phi] = e.val(bfr, bst, ph.phi.Edges[pj])
			}
			for i, c := range cands {
				if c.alive {
					g := c.eval(bst, tAdd(n, tInt(1)), func(p *ssa.Phi) Val { return nv[p] })
					if bst.decide(g) == tTrue {
						continue
					}
					backs = append(backs, &backOb{facts: bst.facts, goal: g, idx: i})
				}
			}
		}}
		e.runFrom(fr1, li.head, 0, st1, Cont{ret: func(*State, []Val) {}, pan: func(*State, Val) {}})
		e.mute = savedMute
		dropped := e.checkBacks(backs, cands, key)
		if !dropped {
			break
		}
	}
	// 5. go on with the surviving invariants
	for nm, t := range binds {
		hs.ghost["loop:"+nm] = t
	}
	for _, c := range cands {
		if c.alive {
			hs.assume(c.eval(hs, n, headPhi))
			if c.spec && !e.mute {
				e.obls = append(e.obls, &obligation{fn: e.cur.name, name: "invariant holds initially and is preserved: " + c.name, props: c.props, kind: "inv", status: "proved", solver: "z3-5", secs: c.secs, trace: st.trace})
			}
		} else if c.must && !e.mute {
			e.obls = append(e.obls, &obligation{fn: e.cur.name, name: "the loop makes progress: " + c.name, props: c.props, kind: "variant", status: "failed", solver: "z3-5", secs: c.secs, goal: tFalse, output: "not preserved by an iteration of the loop at " + e.where(li.head.Instrs[len(li.head.Instrs)-1]), trace: st.trace})
		} else if os.Getenv("GOVER_DEBUG") == "2" && !e.mute {
			fmt.Fprintf(os.Stderr, "  dropped at %s (%s): %s\n", e.where(li.head.Instrs[len(li.head.Instrs)-1]), strings.Join(st.trace, ";"), c.name)
		}
	}
	hf.loops[li.head] = &activeLoop{li: li, onBack: func(*State, *Frame, *ssa.BasicBlock) {}, onExit: func() bool { return false }}
	e.runFrom(hf, li.head, 0, hs, k)
}

func linearPhi(p *ssa.Phi, li *loopInfo) (bool, int64) {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false, 0
	}
	step, have := int64(0), false
	for i, pr := range p.Block().Preds {
		if !li.blocks[pr] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
			return false, 0
		}
		c, ok := bo.Y.(*ssa.Const)
		if bo.X != p || !ok {
			c2, ok2 := bo.X.(*ssa.Const)
			if bo.Y != p || !ok2 || bo.Op != token.ADD {
				return false, 0
			}
			c = c2
		}
		s := c.Int64()
		if bo.Op == token.SUB {
			s = -s
		}
		if have && s != step {
			return false, 0
		}
		step, have = s, true
	}
	return have, step
}

func (e *Engine) setPhis(fr *Frame, st *State, phis []*phiInfo, n *Term, dry bool) {
	for _, ph := range phis {
		if ph.linear {
			if t, ok := ph.init.(*Term); ok {
				fr.locals[ph.phi] = tAdd(t, tMul(tInt(ph.step), n))
				continue
			}
		}
		fr.locals[ph.phi] = e.symVal(st, ph.phi.Type(), "phi."+ph.phi.Comment)
	}
}

// havoc forgets everything the recorder says may be written.
func (e *Engine) havoc(st *State, mod *recorder, entry *State, mark int) {
	if mod.allocs {
		a := fresh("Int", "alloc")
		st.assume(tLe(entry.alloc, a))
		st.alloc = a
	}
	var ids []int
	for id := range mod.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fs := mod.objs[id]
		v, ok := st.objs[id]
		if !ok {
			continue
		}
		t := e.objType(id)
		if t == nil {
			unsup("unknown object in loop")
		}
		if a, ok := v.(*ArrVal); ok {
			st.objs[id] = &ArrVal{elem: a.elem, term: fresh(arrSort("Int", sortOf(a.elem)), "arr")}
			continue
		}
		if _, isS := t.Underlying().(*types.Struct); isS && !fs[-1] && !isExternalNamed(t) {
			s := e.explode(st, v, t)
			ns := &StructVal{s.t, append([]Val{}, s.fields...)}
			for f := range fs {
				ft := t.Underlying().(*types.Struct).Field(f)
				// a slice under construction keeps its identity only if the
				// field itself is not assigned
				ns.fields[f] = e.symVal(st, ft.Type(), "fld."+ft.Name())
			}
			st.objs[id] = ns
			continue
		}
		st.objs[id] = e.symVal(st, t, "obj")
	}
	var hn []string
	for h := range mod.heaps {
		hn = append(hn, h)
	}
	sort.Strings(hn)
	for _, h := range hn {
		so, ok := heapSorts[h]
		if !ok {
			continue
		}
		old := e.heapGet(st, h, so)
		var inv []*Term
		variant, freshRefs := false, false
		for r := range mod.heaps[h] {
			switch {
			case r == nil:
				variant = true
			case r == freshMarker():
				freshRefs = true
			default:
				inv = append(inv, r)
			}
		}
		sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
		switch {
		case variant:
			st.heap[h] = fresh(so, h)
		case freshRefs:
			nh := fresh(so, h)
			r := boundVar("Int", "r")
			c := []*Term{tLt(r, entry.alloc)}
			for _, i := range inv {
				c = append(c, tNot(tEq(r, i)))
			}
			st.assume(mkBinder("forall", []*Term{r}, tImp(tAnd(c...), tEq(tSelect(nh, r), tSelect(old, r))), [][]*Term{{tSelect(nh, r)}}))
			st.heap[h] = nh
		default:
			nh := old
			for _, i := range inv {
				nh = tStore(nh, i, fresh(arrElem(so), h+".v"))
			}
			st.heap[h] = nh
		}
	}
	for g := range mod.ghosts {
		if t, ok := st.ghost[g]; ok {
			st.ghost[g] = fresh(t.sort, g)
		}
	}
}

var freshMarkerT *Term

func freshMarker() *Term {
	if freshMarkerT == nil {
		freshMarkerT = mk("Int", "<fresh>")
	}
	return freshMarkerT
}

var objTypes = map[int]types.Type{}

func (e *Engine) objType(id int) types.Type { return objTypes[id] }

// isInvariantTerm: built only from symbols older than mark.
func isInvariantTerm(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if len(t.args) == 0 {
			if d, ok := decls[t.op]; ok && d.order > mark && !strings.HasPrefix(t.op, "@") && !distinctConsts[t] {
				return false
			}
		}
		for _, a := range t.args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

func (r *recorder) merge(o *recorder, mark int) {
	for id, fs := range o.objs {
		for f := range fs {
			if r.objs[id] == nil {
				r.objs[id] = map[int]bool{}
			}
			r.objs[id][f] = true
		}
	}
	for h, rs := range o.heaps {
		if r.heaps[h] == nil {
			r.heaps[h] = map[*Term]bool{}
		}
		for t := range rs {
			switch {
			case t == nil || t == freshMarker():
				r.heaps[h][t] = true
			case o.allocd[t]:
				r.heaps[h][freshMarker()] = true
			case isInvariantTerm(t, mark):
				r.heaps[h][t] = true
			default:
				r.heaps[h][nil] = true
			}
		}
	}
	for g := range o.ghosts {
		r.ghosts[g] = true
	}
	for f := range o.fwd {
		r.fwd[f] = true
	}
	r.allocs = r.allocs || o.allocs
}

// candidates -------------------------------------------------------------------

func (e *Engine) candidates(fr *Frame, li *loopInfo, st, hs *State, phis []*phiInfo, mod *recorder, bounds []*Term, n *Term) ([]*cand, map[string]*Term) {
	var cs []*cand
	binds := map[string]*Term{}
	add := func(c *cand) { c.alive = true; cs = append(cs, c) }
	for _, b := range bounds {
		b := b
		if b.sort == "Int" && !isLit(b) || isLit(b) {
			add(&cand{name: "n <= " + trunc(b.String(), 60), eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term { return tLe(n, b) }})
		}
	}
	// a flag that starts with a fixed value has it in the first iteration
	for _, ph := range phis {
		t, ok := ph.init.(*Term)
		if !ok || t != tTrue && t != tFalse {
			continue
		}
		p := ph.phi
		add(&cand{name: "first " + p.Comment, eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term {
			return tImp(tEq(n, tInt(0)), tEq(phi(p).(*Term), t))
		}})
	}
	// numbers that are compared with constants stay in their range
	for _, ph := range phis {
		if e.cur.spec == nil || e.cur.spec.measure == nil || ph.linear || sortOf(ph.phi.Type()) != "Int" {
			continue
		}
		if b, ok := ph.phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		p := ph.phi
		val := func(phi func(*ssa.Phi) Val) *Term { t, _ := phi(p).(*Term); return t }
		add(&cand{name: "0 <= " + p.Comment, eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term { return tLe(tInt(0), val(phi)) }})
		add(&cand{name: "1 <= " + p.Comment, eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term { return tLe(tInt(1), val(phi)) }})
		for _, r := range *p.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok {
				for _, y := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := y.(*ssa.Const); ok && c.Value != nil {
						lim := tInt(c.Int64())
						add(&cand{name: p.Comment + " <= " + lim.String(), eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term { return tLe(val(phi), lim) }})
					}
				}
			}
		}
	}
	// what is not nil stays so
	for _, ph := range phis {
		var nz func(v Val) *Term
		switch ph.phi.Type().Underlying().(type) {
		case *types.Interface:
			nz = func(v Val) *Term {
				if t, ok := v.(*Term); ok {
					return tNot(tEq(tTag(t), tInt(0)))
				}
				return tTrue // a value with a known type
			}
		default:
			continue
		}
		p := ph.phi
		add(&cand{name: p.Comment + " != nil", eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term { return nz(phi(p)) }})
	}
	// locations holding slices and maps
	locs := e.locations(fr, li, st, phis, mod)
	for _, l := range locs {
		l := l
		if _, ok := l.t.Underlying().(*types.Slice); ok && l.varies {
			add(&cand{name: "len(" + l.name + ") = n", eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term {
				return tEq(e.lenOf(st, l.get(st, phi), l.t), n)
			}})
		}
	}
	// nothing allocated before the loop is changed (for heaps written at
	// addresses that are not known before the loop)
	for h, rs := range mod.heaps {
		if !rs[nil] {
			continue
		}
		h := h
		so := heapSorts[h]
		h0, a0 := e.heapGet(st, h, so), st.alloc
		add(&cand{name: "frame " + h, eval: func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term {
			hh := e.heapGet(st, h, so)
			if hh == h0 {
				return tTrue
			}
			r := boundVarN("Int", "r.frame")
			return mkBinder("forall", []*Term{r}, tImp(tLt(r, a0), tEq(tSelect(hh, r), tSelect(h0, r))), pat1(hh, r))
		}})
	}
	if e.cur == nil || e.cur.spec == nil {
		return cs, binds
	}
	for _, ls := range e.cur.spec.allLoops() {
		hv := e.unitEnv(hs)
		ok := true
		for _, o := range ls.outer {
			if t, has := hs.ghost["loop:"+o]; has {
				hv.vars[o] = sval{t, types.Typ[types.Int]}
			} else {
				ok = false
			}
		}
		if !ok {
			continue
		}
		match := ls.over == nil
		var lt *Term
		if !match {
			if lt = e.tryLen(hs, hv, ls.over); lt == nil {
				continue
			}
		}
		for _, b := range bounds {
			if b == lt {
				match = true
			}
		}
		if !match {
			continue
		}
		ls := ls
		if ls.as != "" {
			binds[ls.as] = n
		}
		mkEval := func(x expr, extra func(st *State, phi func(*ssa.Phi) Val, ev *env)) func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term {
			return func(st *State, n *Term, phi func(*ssa.Phi) Val) *Term {
				ev := e.unitEnv(st)
				for _, o := range ls.outer {
					ev.vars[o] = hv.vars[o]
				}
				if ls.as != "" {
					ev.vars[ls.as] = sval{n, types.Typ[types.Int]}
				}
				if extra != nil {
					extra(st, phi, ev)
				}
				return e.evalBool(ev, x)
			}
		}
		for i := range ls.invs {
			iv := ls.invs[i]
			if iv.anyVar == "" {
				add(&cand{name: iv.src, props: iv.props, spec: true, must: iv.must, eval: mkEval(iv.x, nil)})
				continue
			}
			at := e.resolveType(iv.anyType)
			if at == nil {
				continue
			}
			for _, l := range locs {
				l := l
				if !sameLocType(l.t, at) {
					continue
				}
				add(&cand{name: iv.src + "  [" + iv.anyVar + " := " + l.name + "]", props: iv.props, spec: true, eval: mkEval(iv.x, func(st *State, phi func(*ssa.Phi) Val, ev *env) {
					ev.vars[iv.anyVar] = sval{l.get(st, phi), l.t}
				})})
			}
		}
	}
	return cs, binds
}

func pat1(h, r *Term) [][]*Term {
	s := tSelect(h, r)
	if s.op != "select" || s.args[1] != r {
		return nil
	}
	return [][]*Term{{s}}
}

func sameLocType(a, b types.Type) bool {
	// map[K]any in an invariant stands for every map keyed by K
	if mb, ok := b.(*types.Map); ok {
		if i, ok := mb.Elem().Underlying().(*types.Interface); ok && i.Empty() {
			if ma, ok := a.Underlying().(*types.Map); ok {
				return types.Identical(ma.Key().Underlying(), mb.Key().Underlying())
			}
		}
	}
	return types.Identical(a.Underlying(), b.Underlying())
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (e *Engine) lenOf(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *SliceVal:
		return x.ln
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			sliceOf(u.Elem())
			e.assumeWF(st, t, x)
			return tSliceLen(x)
		case *types.Basic:
			return strLen(x)
		case *types.Map:
			return app("Int", "map.len", e.mapDom(st, u, x))
		case *types.Array:
			return tInt(u.Len())
		}
	case *ArrVal:
		return tInt(t.Underlying().(*types.Array).Len())
	}
	unsup("length of %T", v)
	return nil
}

type location struct {
	name   string
	t      types.Type
	varies bool
	get    func(st *State, phi func(*ssa.Phi) Val) Val
}

// locations lists the places a loop may be building something in.
func (e *Engine) locations(fr *Frame, li *loopInfo, st *State, phis []*phiInfo, mod *recorder) []*location {
	var ls []*location
	for _, ph := range phis {
		p := ph.phi
		ls = append(ls, &location{name: "phi " + p.Comment, t: p.Type(), varies: true, get: func(st *State, phi func(*ssa.Phi) Val) Val { return phi(p) }})
	}
	seenMap := map[*Term]bool{}
	seenObj := map[int]bool{}
	var names []ssa.Value
	for v := range fr.locals {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		val := fr.locals[v]
		e.locFrom(&ls, val, v.Type(), v.Name(), st, mod, seenMap, seenObj)
	}
	for i, b := range fr.binds {
		e.locFrom(&ls, b, fr.fn.FreeVars[i].Type(), fr.fn.FreeVars[i].Name(), st, mod, seenMap, seenObj)
	}
	return ls
}

func (e *Engine) locFrom(ls *[]*location, val Val, t types.Type, name string, st *State, mod *recorder, seenMap map[*Term]bool, seenObj map[int]bool) {
	switch x := val.(type) {
	case *Term:
		if _, ok := t.Underlying().(*types.Map); ok && !seenMap[x] {
			seenMap[x] = true
			*ls = append(*ls, &location{name: name, t: t, get: func(*State, func(*ssa.Phi) Val) Val { return x }})
		}
	case *SliceVal:
		if !seenObj[x.obj.id] {
			seenObj[x.obj.id] = true
			*ls = append(*ls, &location{name: name, t: types.NewSlice(x.elem), varies: false, get: func(*State, func(*ssa.Phi) Val) Val { return x }})
		}
	case *PtrVal:
		if len(x.path) != 0 || seenObj[x.obj.id] || x.obj.global != nil {
			return
		}
		seenObj[x.obj.id] = true
		o := x.obj
		c, ok := st.objs[o.id]
		if !ok {
			return
		}
		if s, ok := o.t.Underlying().(*types.Struct); ok && !isExternalNamed(o.t) {
			for i := 0; i < s.NumFields(); i++ {
				i := i
				ft := s.Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Slice, *types.Map:
				default:
					continue
				}
				*ls = append(*ls, &location{name: o.name + "." + s.Field(i).Name(), t: ft, varies: mod.objs[o.id][i], get: func(st *State, phi func(*ssa.Phi) Val) Val {
					return e.fieldOf(nil, st.objs[o.id], o.t, i)
				}})
			}
			return
		}
		_ = c
		switch o.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Basic, *types.Interface:
			*ls = append(*ls, &location{name: o.name, t: o.t, varies: len(mod.objs[o.id]) > 0, get: func(st *State, phi func(*ssa.Phi) Val) Val {
				return st.objs[o.id]
			}})
		}
	}
}

// Houdini checks -----------------------------------------------------------------

var houdiniCache = map[string]map[string]bool{} // key -> dropped candidate names

func (e *Engine) filterInit(st *State, cands []*cand, phi func(*ssa.Phi) Val, key string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, solverPar)
	for _, c := range cands {
		if houdiniCache[key][c.name] {
			c.alive = false
		}
		if !c.alive {
			continue
		}
		var g *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case unsupported, specErr:
						c.alive = false
						return
					}
					panic(r)
				}
			}()
			g = c.eval(st, tInt(0), phi)
		}()
		if !c.alive {
			continue
		}
		if st.decide(g) == tTrue {
			continue
		}
		if g == tFalse {
			c.alive = false
			continue
		}
		sc := buildScript(withLits(st.facts, g), g, "")
		c := c
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			ok, d := quickProve(sc)
			mu.Lock()
			c.secs += d
			if !ok {
				if d := os.Getenv("GOVER_DROP"); d != "" && strings.Contains(c.name, d) {
					os.WriteFile("/tmp/drop.smt2", []byte(sc), 0644)
				}
				c.alive = false
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	for _, c := range cands {
		if !c.alive {
			noteDropped(key, c.name)
		}
	}
}

func noteDropped(key, name string) {
	if houdiniCache[key] == nil {
		houdiniCache[key] = map[string]bool{}
	}
	houdiniCache[key][name] = true
}

func (e *Engine) checkBacks(backs []*backOb, cands []*cand, key string) bool {
	// group by path (facts slice) and try the conjunction first
	type grp struct {
		obs []*backOb
	}
	var gs []*grp
	for _, b := range backs {
		if len(gs) > 0 {
			l := gs[len(gs)-1]
			if len(l.obs[0].facts) == len(b.facts) && len(b.facts) > 0 && &l.obs[0].facts[0] == &b.facts[0] && &l.obs[0].facts[len(b.facts)-1] == &b.facts[len(b.facts)-1] {
				l.obs = append(l.obs, b)
				continue
			}
		}
		gs = append(gs, &grp{obs: []*backOb{b}})
	}
	var mu sync.Mutex
	dropped := false
	drop := func(b *backOb) {
		mu.Lock()
		cands[b.idx].alive = false
		noteDropped(key, cands[b.idx].name)
		dropped = true
		mu.Unlock()
	}
	type job struct {
		script string
		bs     []*backOb
		subs   []string
	}
	var jobs []job
	for _, g := range gs {
		var goals []*Term
		for _, b := range g.obs {
			goals = append(goals, b.goal)
		}
		conj := tAnd(goals...)
		j := job{script: buildScript(withLits(g.obs[0].facts, conj), conj, ""), bs: g.obs}
		for _, b := range g.obs {
			j.subs = append(j.subs, buildScript(withLits(b.facts, b.goal), b.goal, ""))
		}
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, solverPar)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			if len(j.bs) > 1 {
				ok, d := quickProve(j.script)
				mu.Lock()
				for _, b := range j.bs {
					cands[b.idx].secs += d / float64(len(j.bs))
				}
				mu.Unlock()
				if ok {
					return
				}
			}
			for i, b := range j.bs {
				ok, d := quickProve(j.subs[i])
				mu.Lock()
				cands[b.idx].secs += d
				mu.Unlock()
				if !ok {
					if d := os.Getenv("GOVER_DROP"); d != "" && strings.Contains(cands[b.idx].name, d) {
						os.WriteFile("/tmp/drop.smt2", []byte(j.subs[i]), 0644)
					}
					drop(b)
				}
			}
		}()
	}
	wg.Wait()
	return dropped
}

var solverPar = 8

func quickProve(script string) (bool, float64) {
	o, d := runSolver(solvers[0], script, 3*time.Second)
	if firstLine(o) == "unsat" {
		return true, d
	}
	if strings.Contains(o, "error") && os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR", trunc(o, 300))
		os.WriteFile("/tmp/gover-err.smt2", []byte(script), 0644)
	}
	return false, d
}

// withLits adds the defining facts of the string literals that occur.
func withLits(facts []*Term, goal *Term) []*Term {
	seen := map[*Term]bool{}
	var lits []*Term
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := litOf[t]; ok {
			lits = append(lits, t)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, x := range facts {
		f(x)
	}
	f(goal)
	if len(lits) == 0 {
		return facts
	}
	r := append([]*Term{}, facts...)
	for _, l := range lits {
		for _, x := range litFacts(l) {
			r = append(r, x)
		}
	}
	return r
}
