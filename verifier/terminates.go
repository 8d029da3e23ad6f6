package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination of everything a parse can reach, apart from the rule functions
// of the generated parser, which have contracts (progress.spec): a variant for
// each loop, and for recursion a value that gets smaller on every way round
// (the size-change principle over the arguments, by the nesting of values).

type termCtx struct {
	e        *Engine
	prop     string
	r        *unitResult
	fns      []*ssa.Function
	in       map[*ssa.Function]bool
	rule     map[*ssa.Function]bool // rule functions of the generated parser
	addr     []*ssa.Function        // functions used as values
	pureMemo map[*ssa.Function]bool
	base     ssa.Value // rel also compares with this value
}

func (t *termCtx) unsupported(why string) {
	t.r.Status = "unsupported"
	if t.r.Msg == "" {
		t.r.Msg = why
	}
}

func (t *termCtx) add(name, kind string, bad []string) {
	o := oblJSON{Name: name, Kind: kind, Props: []string{t.prop}, Status: "proved", Solver: "ranking"}
	if len(bad) > 0 {
		o.Status, o.Output = "failed", strings.Join(bad, "; ")
	}
	t.r.Obls = append(t.r.Obls, o)
}

func (e *Engine) terminationObligations(prop string, r *unitResult) {
	r.File = "termination"
	t := &termCtx{e: e, prop: prop, r: r, in: map[*ssa.Function]bool{}, rule: map[*ssa.Function]bool{}, pureMemo: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, n := range []string{"Parse", "ParseKF"} {
		p := e.pkgs["kfparser"]
		if p == nil || p.Func(n) == nil {
			r.Status, r.Msg = "missing", "no function kfparser."+n
			return
		}
		roots = append(roots, p.Func(n))
	}
	t.fns = e.reachRTA(roots)
	progress := loadSpecs(specDir(), "progress.spec")
	for _, f := range t.fns {
		t.in[f] = true
		if sp := progress.funcs[funcKey(f)]; sp != nil && sp.measure != nil {
			t.rule[f] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range t.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || *op == callee || seen[g] || !t.in[g] {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && onlyCalled(mc) {
						continue
					}
					seen[g] = true
					t.addr = append(t.addr, g)
				}
			}
		}
	}
	for _, f := range t.fns {
		if t.rule[f] || f.Name() == "init" || !written(f) {
			continue
		}
		t.loops(f)
		t.blocking(f)
	}
	t.recursion()
	e.notes = map[string]bool{}
}

func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != ssa.Value(mc) {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return false
			}
		}
	}
	return true
}

// loops -----------------------------------------------------------------------

func (t *termCtx) loops(f *ssa.Function) {
	ls := t.e.loopsOf(f)
	if len(ls) == 0 {
		if irreducible(f) {
			t.unsupported("irregular control flow in " + funcKey(f))
		}
		return
	}
	var heads []*ssa.BasicBlock
	for h := range ls {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
	if irreducible(f) {
		t.unsupported("irregular control flow in " + funcKey(f))
	}
	for i, h := range heads {
		name := fmt.Sprintf("loop %d of %s ends", i+1, funcKey(f))
		why, stuck := t.variant(ls[h])
		switch {
		case why != "":
			t.add(name+" ("+why+")", "variant", nil)
		case stuck != "":
			t.add(name, "variant", []string{stuck})
		default:
			t.unsupported("no variant for " + name[:len(name)-5] + " at " + t.e.where(h.Instrs[len(h.Instrs)-1]))
		}
	}
}

// irreducible: a retreating edge to a block that does not dominate its source.
func irreducible(f *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	bad := false
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				visit(s)
			case 1:
				if !s.Dominates(b) {
					bad = true
				}
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
	}
	return bad
}

func (t *termCtx) latches(li *loopInfo) (out []int) {
	for i, p := range li.head.Preds {
		if li.blocks[p] {
			out = append(out, i)
		}
	}
	return
}

// variant looks for a variant of the loop; stuck says where an iteration leaves
// everything as it was.
func (t *termCtx) variant(li *loopInfo) (why, stuck string) {
	lat := t.latches(li)
	domsAll := func(b *ssa.BasicBlock) bool {
		for _, i := range lat {
			if !b.Dominates(li.head.Preds[i]) {
				return false
			}
		}
		return true
	}
	for _, b := range li.head.Parent().Blocks {
		if !li.blocks[b] || !domsAll(b) || len(b.Succs) != 2 {
			continue
		}
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		stay := 0
		switch {
		case li.blocks[b.Succs[0]] && !li.blocks[b.Succs[1]]:
		case li.blocks[b.Succs[1]] && !li.blocks[b.Succs[0]]:
			stay = 1
		default:
			continue
		}
		if why := t.exitTest(li, lat, b, cond.Cond, stay == 0); why != "" {
			return why, ""
		}
	}
	// going down into a finite value
	for _, in := range li.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t.base = p
		all := holdsPointers(p.Type())
		for _, i := range lat {
			if !all {
				break
			}
			j, a := t.rel(p.Edges[i], map[ssa.Value]bool{})
			all = j == baseIndex && a == arcLess
		}
		t.base = nil
		if all {
			return "each iteration goes on with a part of a finite value", ""
		}
	}
	return "", t.stuckPath(li, lat)
}

const baseIndex = 1000

// exitTest: the loop goes on only while cond == want; is that finitely often?
func (t *termCtx) exitTest(li *loopInfo, lat []int, b *ssa.BasicBlock, cond ssa.Value, want bool) string {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.exitTest(li, lat, b, x.X, !want)
		}
	case *ssa.Extract:
		n, ok := x.Tuple.(*ssa.Next)
		if !ok || x.Index != 0 || !want || n.Block() == nil || !li.blocks[n.Block()] || !t.outside(li, n.Iter) {
			return ""
		}
		// one step of the iterator in each iteration, of something that does not grow
		for _, i := range lat {
			if !n.Block().Dominates(li.head.Preds[i]) {
				return ""
			}
		}
		rg, ok := n.Iter.(*ssa.Range)
		if !ok {
			return ""
		}
		if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
			for bb := range li.blocks {
				for _, in := range bb.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), rg.X.Type()) && mu.Map == rg.X {
						return ""
					}
				}
			}
		}
		return "each iteration takes one element"
	case *ssa.BinOp:
		op, l, r := x.Op, x.X, x.Y
		if !want {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		for _, sw := range []bool{false, true} {
			o := op
			if sw {
				l, r = r, l
				o = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}[op]
			}
			// l o r holds whenever the loop goes on
			if why := t.counter(li, lat, l, o, r); why != "" {
				return why
			}
		}
		return ""
	}
	return ""
}

func (t *termCtx) outside(li *loopInfo, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !li.blocks[in.Block()]
}

// counter: l is a counter, or the length of something that is cut down, and r
// a bound that stays put.
func (t *termCtx) counter(li *loopInfo, lat []int, l ssa.Value, o token.Token, r ssa.Value) string {
	for _, in := range li.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			if d, ok := t.delta(li, l, p, map[ssa.Value]bool{}); !ok || d.lo != d.hi {
				continue
			}
			lo, hi, ok := t.steps(li, lat, p)
			if !ok || !t.fixed(li, r) {
				continue
			}
			if lo > 0 && (o == token.LSS || o == token.LEQ || o == token.NEQ && hi == 1 && lo == 1 && t.startsBelow(li, p, l, r)) {
				return "a counter goes up to a fixed bound"
			}
			if hi < 0 && (o == token.GTR || o == token.GEQ) {
				return "a counter goes down to a fixed bound"
			}
			continue
		}
		// len(p) > 0 / p != "" , p cut down in each iteration
		if !t.lenOrSelf(l, p) || (o != token.GTR && o != token.NEQ && o != token.GEQ) {
			continue
		}
		c, isC := r.(*ssa.Const)
		if !isC {
			continue
		}
		if l == ssa.Value(p) {
			if o != token.NEQ || !(c.Value == nil || c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "") {
				continue
			}
		} else if n, exact := constant.Int64Val(constant.ToInt(c.Value)); !exact || n < 0 || o == token.GEQ && n < 1 || o == token.NEQ && n != 0 {
			continue
		}
		cut := true
		for _, i := range lat {
			cut = cut && t.shorter(li, p.Edges[i], p)
		}
		if cut {
			return "each iteration shortens a sequence"
		}
	}
	return ""
}

func (t *termCtx) lenOrSelf(l ssa.Value, p *ssa.Phi) bool {
	if l == ssa.Value(p) {
		return true
	}
	c, ok := l.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == ssa.Value(p)
}

// shorter: v is a proper part of the non-empty p, by its position.
func (t *termCtx) shorter(li *loopInfo, v ssa.Value, p *ssa.Phi) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.X != ssa.Value(p) {
			return false
		}
		if c, ok := x.Low.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
			return true
		}
		if h, ok := x.High.(*ssa.BinOp); ok && x.Low == nil && h.Op == token.SUB && t.lenOrSelf(h.X, p) && h.X != ssa.Value(p) {
			if c, ok := h.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
				return true
			}
		}
	case *ssa.Phi:
		if x == p || !li.blocks[x.Block()] || len(x.Edges) == 0 {
			return false
		}
		for _, ed := range x.Edges {
			if ed == ssa.Value(x) || !t.shorter(li, ed, p) {
				return false
			}
		}
		return true
	}
	return false
}

func (t *termCtx) startsBelow(li *loopInfo, p *ssa.Phi, l, r ssa.Value) bool {
	// i != len(x), i from 0 up by one
	if l != ssa.Value(p) {
		return false
	}
	c, ok := r.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	for i, ed := range p.Edges {
		if li.blocks[li.head.Preds[i]] {
			continue
		}
		if k, ok := ed.(*ssa.Const); !ok || k.Value == nil || constant.Sign(k.Value) != 0 {
			return false
		}
	}
	return true
}

type drange struct{ lo, hi int64 }

// steps: by how much the counter changes in an iteration.
func (t *termCtx) steps(li *loopInfo, lat []int, p *ssa.Phi) (lo, hi int64, ok bool) {
	for n, i := range lat {
		d, ok := t.delta(li, p.Edges[i], p, map[ssa.Value]bool{})
		if !ok {
			return 0, 0, false
		}
		if n == 0 || d.lo < lo {
			lo = d.lo
		}
		if n == 0 || d.hi > hi {
			hi = d.hi
		}
	}
	return lo, hi, len(lat) > 0
}

// delta: v - p, within one iteration of the loop.
func (t *termCtx) delta(li *loopInfo, v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) (drange, bool) {
	if v == ssa.Value(p) {
		return drange{}, true
	}
	if seen[v] {
		return drange{}, false
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.BinOp:
		k, a := x.Y, x.X
		c, ok := k.(*ssa.Const)
		if !ok && x.Op == token.ADD {
			c, ok = x.X.(*ssa.Const)
			a = x.Y
		}
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return drange{}, false
		}
		n, exact := constant.Int64Val(c.Value)
		if !exact {
			return drange{}, false
		}
		d, ok := t.delta(li, a, p, seen)
		if !ok {
			return drange{}, false
		}
		switch x.Op {
		case token.ADD:
			return drange{d.lo + n, d.hi + n}, true
		case token.SUB:
			return drange{d.lo - n, d.hi - n}, true
		}
	case *ssa.Phi:
		if !li.blocks[x.Block()] {
			return drange{}, false
		}
		inner := t.e.loopsOf(x.Parent())[x.Block()]
		var r drange
		n := 0
		for i, ed := range x.Edges {
			if inner != nil && inner.blocks[x.Block().Preds[i]] {
				continue
			}
			d, ok := t.delta(li, ed, p, seen)
			if !ok {
				return drange{}, false
			}
			if n == 0 || d.lo < r.lo {
				r.lo = d.lo
			}
			if n == 0 || d.hi > r.hi {
				r.hi = d.hi
			}
			n++
		}
		if inner != nil {
			// what the inner loop adds
			lo, hi, ok := t.steps(inner, t.latches(inner), x)
			switch {
			case !ok:
				return drange{}, false
			case lo == 0 && hi == 0:
			case lo >= 0:
				r.hi = 1 << 40
			case hi <= 0:
				r.lo = -1 << 40
			default:
				return drange{}, false
			}
		}
		return r, n > 0
	}
	return drange{}, false
}

// fixed: the same value in each iteration.
func (t *termCtx) fixed(li *loopInfo, v ssa.Value) bool {
	if t.outside(li, v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); isMap {
				return false
			}
			return t.fixed(li, x.Call.Args[0])
		}
		// the number of children of a node of the finished tree
		if x.Call.IsInvoke() && x.Call.Method.Name() == "GetChildCount" {
			return t.fixed(li, x.Call.Value)
		}
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "GetChildCount" && !t.e.isRepoFn(f) {
			return t.fixed(li, x.Call.Args[0])
		}
	case *ssa.BinOp:
		return t.fixed(li, x.X) && t.fixed(li, x.Y)
	case *ssa.Convert:
		return t.fixed(li, x.X)
	case *ssa.ChangeType:
		return t.fixed(li, x.X)
	case *ssa.FieldAddr:
		return t.fixed(li, x.X)
	case *ssa.Field:
		return t.fixed(li, x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return t.fixed(li, x.X)
		}
		return t.fixed(li, x.X) && t.notStored(li, x.X)
	}
	return false
}

// notStored: nothing in the loop can write the place that the address denotes.
func (t *termCtx) notStored(li *loopInfo, a ssa.Value) bool {
	if al, ok := a.(*ssa.Alloc); ok && !al.Heap {
		for b := range li.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == a {
					return false
				}
			}
		}
		return true
	}
	var same func(b ssa.Value) bool
	fa, isField := a.(*ssa.FieldAddr)
	same = func(b ssa.Value) bool {
		if !types.Identical(a.Type(), b.Type()) {
			// a whole struct may be written
			_, isStruct := b.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return isStruct
		}
		if fb, ok := b.(*ssa.FieldAddr); ok && isField {
			return fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())
		}
		return true
	}
	ok := true
	seen := map[*ssa.Function]bool{}
	var scan func(in ssa.Instruction)
	scan = func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if same(x.Addr) {
				ok = false
			}
		case ssa.CallInstruction:
			for _, g := range t.callees(x) {
				if seen[g.fn] {
					continue
				}
				seen[g.fn] = true
				for _, b := range g.fn.Blocks {
					for _, in := range b.Instrs {
						scan(in)
					}
				}
			}
		}
	}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			scan(in)
		}
	}
	return ok
}

// stuckPath: a way round the loop on which nothing at all changes.
func (t *termCtx) stuckPath(li *loopInfo, lat []int) string {
	found, n := "", 0
	var path []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	// the value of v at the end of the path
	var at func(v ssa.Value) ssa.Value
	at = func(v ssa.Value) ssa.Value {
		x, ok := v.(*ssa.Phi)
		if !ok || x.Block() == li.head {
			return v
		}
		for k := len(path) - 1; k > 0; k-- {
			if path[k] != x.Block() {
				continue
			}
			for m, pr := range x.Block().Preds {
				if pr == path[k-1] {
					return at(x.Edges[m])
				}
			}
		}
		return v
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		n++
		if n > 5000 || found != "" || on[b] || !li.blocks[b] || !t.pure(b) {
			return
		}
		on[b] = true
		path = append(path, b)
		for _, s := range b.Succs {
			if s != li.head {
				walk(s)
				continue
			}
			same := true
			for i, pr := range li.head.Preds {
				if pr != b {
					continue
				}
				for _, in := range li.head.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					same = same && at(p.Edges[i]) == ssa.Value(p)
				}
			}
			if same && found == "" {
				found = "an iteration that ends at " + t.e.where(b.Instrs[len(b.Instrs)-1]) + " leaves everything as it was"
			}
		}
		path = path[:len(path)-1]
		delete(on, b)
	}
	walk(li.head)
	return found
}

func (t *termCtx) pure(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.Next, *ssa.RunDefers:
			return false
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "ssa:wrapnilchk", "min", "max":
					continue
				}
				return false
			}
			f := x.Call.StaticCallee()
			if f != nil && t.in[f] && t.pureFn(f) {
				continue
			}
			if f == nil || f.Pkg == nil {
				return false
			}
			switch f.Pkg.Pkg.Path() {
			case "strings", "unicode", "unicode/utf8", "strconv":
				if f.Signature.Recv() != nil {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// pureFn: a function without loops and effects.
func (t *termCtx) pureFn(f *ssa.Function) bool {
	if v, ok := t.pureMemo[f]; ok {
		return v
	}
	t.pureMemo[f] = false // recursion is not followed
	ok := len(t.e.loopsOf(f)) == 0 && f.Recover == nil
	for _, b := range f.Blocks {
		ok = ok && t.pure(b)
	}
	t.pureMemo[f] = ok
	return ok
}

// blocking: a parse does not wait for anything.
func (t *termCtx) blocking(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select, *ssa.Send, *ssa.Go:
				t.unsupported("a parse communicates at " + t.e.where(in))
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					t.unsupported("a parse waits at " + t.e.where(in))
				}
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || t.in[g] {
					continue
				}
				path := ""
				if g.Pkg != nil {
					path = g.Pkg.Pkg.Path()
				} else if g.Object() != nil && g.Object().Pkg() != nil {
					path = g.Object().Pkg().Path()
				}
				switch path {
				case "sync":
					if g.String() != "(*sync.Once).Do" {
						t.unsupported("a parse waits in " + g.String() + " at " + t.e.where(in))
						continue
					}
					if o := doneFn(x.Common()); o == nil || t.reachesDo(o, map[*ssa.Function]bool{}) {
						t.unsupported("nested sync.Once at " + t.e.where(in))
					}
				case "net", "net/http", "bufio", "os/exec", "time", "io", "syscall", "context":
					t.unsupported("a parse may wait in " + g.String() + " at " + t.e.where(in))
				}
			}
		}
	}
}

func (t *termCtx) reachesDo(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if isDo(c.Common()) {
				return true
			}
			for _, g := range t.callees(c) {
				if t.reachesDo(g.fn, seen) {
					return true
				}
			}
		}
	}
	return false
}

// recursion -------------------------------------------------------------------

type callTo struct {
	fn   *ssa.Function
	args []ssa.Value // one for each parameter, nil: not known
}

// callees: the repository functions that a call may run, directly or, for the
// formatting functions, through the Error and String methods of an argument.
func (t *termCtx) callees(c ssa.CallInstruction) (out []callTo) {
	cc := c.Common()
	if cc.IsInvoke() {
		args := append([]ssa.Value{cc.Value}, cc.Args...)
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, ty := range t.e.concreteImpls(it) {
			if m := t.e.prog.LookupMethod(ty, cc.Method.Pkg(), cc.Method.Name()); m != nil && t.in[m] {
				out = append(out, callTo{m, args})
			}
		}
		return
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		for _, f := range t.addr {
			if types.Identical(f.Signature, cc.Value.Type().Underlying()) {
				out = append(out, callTo{f, cc.Args})
			}
		}
		return
	}
	if isDo(cc) {
		if o := doneFn(cc); o != nil && t.in[o] {
			out = append(out, callTo{o, nil})
		}
		return
	}
	if t.in[g] {
		return append(out, callTo{g, cc.Args})
	}
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	switch path {
	case "fmt", "errors":
		for _, a := range variadic(cc.Args) {
			for _, n := range []string{"Error", "String", "Is", "Unwrap"} {
				if path == "errors" && n == "String" {
					continue
				}
				for _, f := range t.fns {
					if f.Name() != n || f.Signature.Recv() == nil {
						continue
					}
					rt := f.Signature.Recv().Type()
					if mi, ok := a.(*ssa.MakeInterface); ok {
						if types.Identical(mi.X.Type(), rt) {
							out = append(out, callTo{f, []ssa.Value{mi.X}})
						}
						continue
					}
					if it, ok := a.Type().Underlying().(*types.Interface); ok && types.Implements(rt, it) {
						out = append(out, callTo{f, []ssa.Value{a}})
					}
				}
			}
		}
	}
	return
}

// variadic: the arguments, those of a variadic call one by one.
func variadic(args []ssa.Value) (out []ssa.Value) {
	for _, a := range args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			out = append(out, a)
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			out = append(out, a)
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r := range *ia.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					v := s.Val
					if ci, ok := v.(*ssa.ChangeInterface); ok {
						v = ci.X
					}
					out = append(out, v)
				}
			}
		}
	}
	return
}

type arc int8

const (
	arcNone arc = iota
	arcSame
	arcLess
	arcTop // on the way round a loop of phis: no constraint
)

type graph struct {
	from, to int
	m        string // arcs, row by row
}

// rel: how v relates to the parameters of its function.
func (t *termCtx) rel(v ssa.Value, seen map[ssa.Value]bool) (int, arc) {
	if v == nil {
		return -1, arcNone
	}
	if seen[v] {
		if _, ok := v.(*ssa.Phi); ok {
			return -1, arcTop
		}
		return -1, arcNone
	}
	if v == t.base {
		return baseIndex, arcSame
	}
	seen[v] = true
	defer delete(seen, v)
	less := func(x ssa.Value) (int, arc) {
		i, a := t.rel(x, seen)
		if a == arcSame {
			a = arcLess
		}
		return i, a
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return i, arcSame
			}
		}
	case *ssa.MakeInterface:
		return t.rel(x.X, seen)
	case *ssa.ChangeInterface:
		return t.rel(x.X, seen)
	case *ssa.ChangeType:
		return t.rel(x.X, seen)
	case *ssa.TypeAssert:
		return t.rel(x.X, seen)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok && x.Index == 2 {
				return less(rg.X)
			}
			return -1, arcNone
		}
		return t.rel(x.Tuple, seen)
	case *ssa.Lookup:
		return less(x.X)
	case *ssa.Slice:
		return t.rel(x.X, seen)
	case *ssa.Index:
		return less(x.X)
	case *ssa.Field:
		return less(x.X)
	case *ssa.FieldAddr:
		return t.rel(x.X, seen)
	case *ssa.IndexAddr:
		return less(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return -1, arcNone
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a variable set once
			var st *ssa.Store
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != ssa.Value(al) || st != nil {
						return -1, arcNone
					}
					st = y
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
				default:
					return -1, arcNone
				}
			}
			if st == nil {
				return -1, arcNone
			}
			return t.rel(st.Val, seen)
		}
		return less(x.X)
	case *ssa.Alloc:
		// a variable that holds a copy
		var st *ssa.Store
		for _, r := range *x.Referrers() {
			if y, ok := r.(*ssa.Store); ok && y.Addr == ssa.Value(x) {
				if st != nil {
					return -1, arcNone
				}
				st = y
			}
		}
		if st == nil {
			return -1, arcNone
		}
		return t.rel(st.Val, seen)
	case *ssa.Phi:
		i, a := -1, arcNone
		n := 0
		for _, ed := range x.Edges {
			if c, ok := ed.(*ssa.Const); ok && c.Value == nil {
				continue // nil has no parts
			}
			j, b := t.rel(ed, seen)
			if b == arcTop {
				continue
			}
			if b == arcNone || n > 0 && i != j {
				return -1, arcNone
			}
			if n == 0 || b < a {
				a = b
			}
			i = j
			n++
		}
		if n == 0 {
			return -1, arcNone
		}
		return i, a
	case *ssa.Call:
		cc := x.Call
		if cc.IsInvoke() {
			switch cc.Method.Name() {
			case "GetChild", "GetChildren", "GetPayload":
				return less(cc.Value)
			}
			if t.isAccessorName(cc.Value.Type(), cc.Method.Name()) {
				return less(cc.Value)
			}
			return -1, arcNone
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cc.Args) == 2 {
			return -1, arcNone
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			switch f.Name() {
			case "GetChild", "GetChildren":
				return less(cc.Args[0])
			}
			if t.isAccessorName(cc.Args[0].Type(), f.Name()) {
				return less(cc.Args[0])
			}
		}
		// a function that hands back (part of) an argument
		if f := cc.StaticCallee(); f != nil && t.in[f] {
			i, a := -1, arcNone
			n := 0
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(rt.Results) != 1 {
					continue
				}
				if c, ok := rt.Results[0].(*ssa.Const); ok && c.Value == nil {
					continue
				}
				j, w := t.rel(rt.Results[0], seen)
				if w == arcTop {
					w = arcNone
				}
				if w == arcNone || n > 0 && i != j {
					return -1, arcNone
				}
				if n == 0 || w < a {
					a = w
				}
				i = j
				n++
			}
			if a != arcNone && i >= 0 && i < len(cc.Args) {
				j, w := t.rel(cc.Args[i], seen)
				if w == arcSame && a == arcLess {
					w = arcLess
				}
				return j, w
			}
		}
	}
	return -1, arcNone
}

// isAccessorName: a method of a node of the syntax tree that the generated
// parser declares for its children (their contracts: C24).
func (t *termCtx) isAccessorName(ty types.Type, name string) bool {
	p, ok := ty.(*types.Pointer)
	if ok {
		ty = p.Elem()
	}
	n, ok := ty.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "kfgrammar" || !strings.HasSuffix(n.Obj().Name(), "Context") {
		return false
	}
	return t.e.accessorKey("kfgrammar.(*"+n.Obj().Name()+")."+name) || t.e.accessorKey("kfgrammar.(*"+strings.TrimPrefix(n.Obj().Name(), "I")+")."+name)
}

var accessorKeys map[string]bool

func (e *Engine) accessorKey(k string) bool {
	if accessorKeys == nil {
		accessorKeys = map[string]bool{}
		for f := range loadSpecs(specDir(), "accessors.spec").funcs {
			n := f[strings.LastIndex(f, ".")+1:]
			switch {
			case n == "Accept" || n == "GetParser" || n == "GetRuleContext" || strings.HasPrefix(n, "Is") || strings.HasPrefix(n, "New") || strings.HasPrefix(n, "GetParent"):
				continue
			}
			accessorKeys[f] = true
			low := strings.ToLower(f)
			accessorKeys[low] = true
		}
	}
	return accessorKeys[k] || accessorKeys[strings.ToLower(k)]
}

func (t *termCtx) recursion() {
	// strongly connected parts of the call graph
	id := map[*ssa.Function]int{}
	for i, f := range t.fns {
		id[f] = i
	}
	type edge struct {
		to   int
		args []ssa.Value
		at   ssa.Instruction
	}
	out := make([][]edge, len(t.fns))
	for i, f := range t.fns {
		if t.rule[f] {
			continue // their recursion has a measure
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range t.callees(c) {
					if _, ok := id[g.fn]; ok && !t.rule[g.fn] {
						out[i] = append(out[i], edge{id[g.fn], g.args, in})
					}
				}
			}
		}
	}
	n := len(t.fns)
	idx, low, on := make([]int, n), make([]int, n), make([]bool, n)
	comp := make([]int, n)
	var st []int
	cnt, nc := 0, 0
	var rec func(v int)
	rec = func(v int) {
		cnt++
		idx[v], low[v] = cnt, cnt
		st = append(st, v)
		on[v] = true
		for _, e := range out[v] {
			if idx[e.to] == 0 {
				rec(e.to)
				low[v] = min(low[v], low[e.to])
			} else if on[e.to] {
				low[v] = min(low[v], idx[e.to])
			}
		}
		if low[v] == idx[v] {
			nc++
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				comp[w] = nc
				if w == v {
					break
				}
			}
		}
	}
	for v := range t.fns {
		if idx[v] == 0 {
			rec(v)
		}
	}
	byComp := map[int][]int{}
	for v := range t.fns {
		byComp[comp[v]] = append(byComp[comp[v]], v)
	}
	var cs []int
	for c := range byComp {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return byComp[cs[i]][0] < byComp[cs[j]][0] })
	for _, c := range cs {
		vs := byComp[c]
		rec := len(vs) > 1
		for _, e := range out[vs[0]] {
			rec = rec || e.to == vs[0]
		}
		if !rec {
			continue
		}
		// size-change graphs of the calls
		gs := map[graph]ssa.Instruction{}
		var work []graph
		put := func(g graph, at ssa.Instruction) {
			if _, ok := gs[g]; !ok {
				gs[g] = at
				work = append(work, g)
			}
		}
		np := func(v int) int { return len(t.fns[v].Params) }
		for _, v := range vs {
			for _, e := range out[v] {
				if comp[e.to] != c {
					continue
				}
				m := make([]byte, np(v)*np(e.to))
				for j := 0; j < np(e.to) && j < len(e.args); j++ {
					if i, a := t.rel(e.args[j], map[ssa.Value]bool{}); (a == arcSame || a == arcLess) && i >= 0 && i != baseIndex {
						m[i*np(e.to)+j] = byte(a)
					}
				}
				put(graph{v, e.to, string(m)}, e.at)
			}
		}
		compose := func(a, b graph) graph {
			p, q, r := np(a.from), np(a.to), np(b.to)
			m := make([]byte, p*r)
			for i := 0; i < p; i++ {
				for k := 0; k < r; k++ {
					best := byte(arcNone)
					for j := 0; j < q; j++ {
						x, y := a.m[i*q+j], b.m[j*r+k]
						if x != 0 && y != 0 {
							best = max(best, max(x, y))
						}
					}
					m[i*r+k] = best
				}
			}
			return graph{a.from, b.to, string(m)}
		}
		for len(work) > 0 && len(gs) < 60000 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			var l []graph
			for h := range gs {
				l = append(l, h)
			}
			for _, h := range l {
				if g.to == h.from {
					put(compose(g, h), gs[g])
				}
				if h.to == g.from {
					put(compose(h, g), gs[h])
				}
			}
		}
		name := "recursion through " + funcKey(t.fns[vs[0]]) + " ends"
		if len(vs) > 1 {
			name = fmt.Sprintf("recursion through %s and %d more functions ends", funcKey(t.fns[vs[0]]), len(vs)-1)
		}
		if len(work) > 0 {
			t.unsupported(name + ": too many ways round")
			continue
		}
		bad, stuck := "", ""
		var l []graph
		for g := range gs {
			l = append(l, g)
		}
		sort.Slice(l, func(i, j int) bool {
			if l[i].from != l[j].from {
				return l[i].from < l[j].from
			}
			return l[i].m < l[j].m
		})
		for _, g := range l {
			if g.from != g.to || compose(g, g) != g {
				continue
			}
			k := np(g.from)
			less, same := false, k > 0
			for i := 0; i < k; i++ {
				switch arc(g.m[i*k+i]) {
				case arcLess:
					less = true
				case arcNone:
					same = false
				}
			}
			if less {
				continue
			}
			at := funcKey(t.fns[g.from]) + " comes back to itself, through the call at " + t.e.where(gs[g])
			if same {
				stuck = at + ", with the same arguments"
			} else {
				bad = at
			}
		}
		switch {
		case stuck != "":
			t.add(name, "measure", []string{stuck})
		case bad != "":
			t.unsupported(name + ": " + bad)
		default:
			t.add(name, "measure", nil)
		}
	}
}
