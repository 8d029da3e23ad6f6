package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The frame and ownership conditions behind concurrent parses: every function
// that a parse can reach writes only memory that the parse itself owns; what
// is written once, under a sync.Once, is read only after that call. Memory not
// reachable from a package-level variable belongs to the parse that allocated
// it, as a parse is handed nothing but the source, the mode and its listener.

type shareCtx struct {
	e      *Engine
	prop   string
	r      *unitResult
	fns    []*ssa.Function
	in     map[*ssa.Function]bool
	roots  map[*ssa.Function]bool
	uses   map[*ssa.Function][]ssa.Instruction // where a function is called or named
	once   map[*ssa.Function]*ssa.Function     // function run only under a Once -> the one passed to Do
	path   map[*ssa.Function]string            // function passed to Do -> its Once
	sites  map[*ssa.Function][]*ssa.Call       // Do calls
	shared map[ssa.Value]string                // value -> the variable it points into
	maybe  map[ssa.Value]bool                  // value that may point into shared memory, through a field
	slots  map[string]bool                     // fields and element types into which such values were put
	chg    bool

	atomics bool
	unknown map[*ssa.Function]bool            // functions run under a Once that is not known
	guarded map[string]bool                   // variables written where locks are used
	entry   map[*ssa.Function]map[string]bool // locks held whenever the function is entered
}

// reachRTA: the repository functions reachable from the roots through static
// calls, functions named, and methods of repository types put in interfaces.
func (e *Engine) reachRTA(roots []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	types0 := map[types.Type]bool{}
	var visit func(f *ssa.Function)
	addType := func(t types.Type) {
		if types0[t] {
			return
		}
		types0[t] = true
		ms := e.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			visit(e.prog.MethodValue(ms.At(i)))
		}
	}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		if !e.isRepoFn(f) && written(f) {
			return
		}
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if m, ok := in.(*ssa.MakeInterface); ok {
					addType(m.X.Type())
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	return order
}

// pathOf names the part of a package-level variable that an address denotes.
func (s *shareCtx) pathOf(v ssa.Value) (*ssa.Global, string) {
	return s.path0(v, map[ssa.Value]bool{})
}

func (s *shareCtx) path0(v ssa.Value, seen map[ssa.Value]bool) (g *ssa.Global, path string) {
	if seen[v] {
		return nil, ""
	}
	seen[v] = true
	pathOf := func(v ssa.Value) (*ssa.Global, string) { return s.path0(v, seen) }
	switch x := v.(type) {
	case *ssa.Parameter:
		// the same variable at every call
		f := x.Parent()
		i := 0
		for i < len(f.Params) && f.Params[i] != x {
			i++
		}
		for _, u := range s.uses[f] {
			c, ok := u.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != f {
				return nil, ""
			}
			g1, p1 := pathOf(c.Common().Args[i])
			if g1 == nil || g != nil && p1 != path {
				return nil, ""
			}
			g, path = g1, p1
		}
		return g, path
	case *ssa.Global:
		return x, x.String()
	case *ssa.FieldAddr:
		if g, p := pathOf(x.X); g != nil {
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return g, p + "." + st.Field(x.Field).Name()
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			g1, p1 := pathOf(ed)
			if g1 == nil || g != nil && p1 != path {
				return nil, ""
			}
			g, path = g1, p1
		}
		return g, path
	}
	return nil, ""
}

func holdsPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsPointers(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return holdsPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsPointers(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isDo(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.String() == "(*sync.Once).Do"
}

func doneFn(c *ssa.CallCommon) *ssa.Function {
	switch x := c.Args[1].(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	}
	return nil
}

func (s *shareCtx) where(in ssa.Instruction) string { return s.e.where(in) }

func (s *shareCtx) add(name string, kind string, bad []string) {
	o := oblJSON{Name: name, Kind: kind, Props: []string{s.prop}, Status: "proved", Solver: "ownership"}
	if len(bad) > 0 && s.prop != "C27" {
		// state that outlives a parse need not show in the result of another
		s.unsupported(strings.Join(bad, "; "))
		return
	}
	if len(bad) > 0 {
		o.Status, o.Output = "failed", strings.Join(bad, "; ")
	}
	s.r.Obls = append(s.r.Obls, o)
}

func (s *shareCtx) unsupported(why string) {
	s.r.Status = "unsupported"
	if s.r.Msg == "" {
		s.r.Msg = why
	}
}

func (e *Engine) sharedObligations(prop string, r *unitResult) {
	r.File = "frame conditions"
	s := &shareCtx{e: e, prop: prop, r: r, in: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, uses: map[*ssa.Function][]ssa.Instruction{},
		once: map[*ssa.Function]*ssa.Function{}, path: map[*ssa.Function]string{}, sites: map[*ssa.Function][]*ssa.Call{},
		shared: map[ssa.Value]string{}, maybe: map[ssa.Value]bool{}, slots: map[string]bool{}, guarded: map[string]bool{}, unknown: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, n := range []string{"Parse", "ParseKF"} {
		p := e.pkgs["kfparser"]
		if p == nil || p.Func(n) == nil {
			r.Status, r.Msg = "missing", "no function kfparser."+n
			return
		}
		roots = append(roots, p.Func(n))
		s.roots[p.Func(n)] = true
	}
	s.fns = e.reachRTA(roots)
	for _, f := range s.fns {
		s.in[f] = true
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						s.uses[g] = append(s.uses[g], in)
					}
				}
			}
		}
	}
	s.findOnce()
	for s.chg = true; s.chg; {
		s.chg = false
		for _, f := range s.fns {
			s.flow(f)
		}
	}
	for _, f := range s.fns {
		if s.once[f] == nil && written(f) {
			s.frame(f)
		}
	}
	s.onceReads()
	s.lockSets()
	e.notes = map[string]bool{}
}

// findOnce: the functions that run at most once, under one Once that is a
// package-level variable of its own.
func (s *shareCtx) findOnce() {
	paths := map[*ssa.Function]map[string]bool{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isDo(&c.Call) {
					continue
				}
				o := doneFn(&c.Call)
				if mc, ok := c.Call.Args[1].(*ssa.MakeClosure); ok && len(mc.Bindings) > 0 && s.prop != "C27" {
					s.unsupported("what a sync.Once runs depends on the parse that runs it first, at " + s.where(in))
				}
				if o == nil {
					s.unsupported("a sync.Once runs a function that is not known, at " + s.where(in))
					continue
				}
				_, p := s.pathOf(c.Call.Args[0])
				if p == "" {
					p = "?" + s.where(in)
					if !ownOnce(c.Call.Args[0]) {
						s.unsupported("the Once is not known at " + s.where(in))
						s.unknown[o] = true
					}
				}
				if paths[o] == nil {
					paths[o] = map[string]bool{}
				}
				paths[o][p] = true
				s.sites[o] = append(s.sites[o], c)
			}
		}
	}
	for o, ps := range paths {
		ok := len(ps) == 1 || s.unknown[o]
		for p := range ps {
			ok = ok && (!strings.HasPrefix(p, "?") || s.unknown[o])
			s.path[o] = p
		}
		// no other use, anywhere in the repository
		for _, f := range s.e.allFns {
			if !s.e.isRepoFn(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, isF := (*op).(*ssa.Function); !isF || g != o {
							continue
						}
						switch x := in.(type) {
						case *ssa.Call:
							ok = ok && isDo(&x.Call)
						case *ssa.MakeClosure:
							for _, r := range *x.Referrers() {
								c, isC := r.(*ssa.Call)
								ok = ok && isC && isDo(&c.Call)
							}
						case *ssa.DebugRef:
						default:
							ok = false
						}
					}
				}
			}
		}
		if ok {
			s.once[o] = o
		} else {
			delete(s.path, o)
		}
	}
	// helpers called only by such a function
	for again := true; again; {
		again = false
		for _, f := range s.fns {
			if s.once[f] != nil || s.roots[f] || len(s.uses[f]) == 0 || !written(f) {
				continue
			}
			var o *ssa.Function
			ok := true
			for _, in := range s.uses[f] {
				c, isC := in.(ssa.CallInstruction)
				if !isC || c.Common().StaticCallee() != f || s.once[in.Parent()] == nil || o != nil && s.once[in.Parent()] != o {
					ok = false
					break
				}
				o = s.once[in.Parent()]
			}
			if ok {
				s.once[f] = o
				again = true
			}
		}
	}
}

func (s *shareCtx) mark(v ssa.Value, g string) {
	if g == "" || v == nil || !holdsPointers(v.Type()) {
		return
	}
	if _, ok := s.shared[v]; !ok {
		s.shared[v] = g
		s.chg = true
	}
}

func (s *shareCtx) markMaybe(v ssa.Value) {
	if v == nil || !holdsPointers(v.Type()) || s.maybe[v] {
		return
	}
	s.maybe[v] = true
	s.chg = true
}

func slotOf(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return fmt.Sprintf("%s.%d", t.String(), x.Field)
	}
	if p, ok := a.Type().Underlying().(*types.Pointer); ok {
		return "elem " + p.Elem().String()
	}
	return "elem " + a.Type().String()
}

func (s *shareCtx) put(slot string, v ssa.Value) {
	_, a := s.shared[v]
	if (a || s.maybe[v]) && holdsPointers(v.Type()) && !s.slots[slot] {
		s.slots[slot] = true
		s.chg = true
	}
}

func (s *shareCtx) flow(f *ssa.Function) {
	// from is what the address or container v points into
	from := func(v ssa.Value) string {
		if g, ok := v.(*ssa.Global); ok {
			return g.String()
		}
		return s.shared[v]
	}
	copyTo := func(to, v ssa.Value) {
		s.mark(to, from(v))
		if s.maybe[v] {
			s.markMaybe(to)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				copyTo(x, x.X)
			case *ssa.IndexAddr:
				copyTo(x, x.X)
			case *ssa.Field:
				copyTo(x, x.X)
			case *ssa.Index:
				copyTo(x, x.X)
			case *ssa.Slice:
				copyTo(x, x.X)
			case *ssa.ChangeType:
				copyTo(x, x.X)
			case *ssa.ChangeInterface:
				copyTo(x, x.X)
			case *ssa.Convert:
				if _, str := x.X.Type().Underlying().(*types.Slice); !str {
					copyTo(x, x.X)
				}
			case *ssa.MakeInterface:
				copyTo(x, x.X)
			case *ssa.TypeAssert:
				copyTo(x, x.X)
			case *ssa.Extract:
				copyTo(x, x.Tuple)
			case *ssa.Lookup:
				copyTo(x, x.X)
			case *ssa.Range:
				copyTo(x, x.X)
			case *ssa.Next:
				copyTo(x, x.Iter)
			case *ssa.Phi:
				for _, ed := range x.Edges {
					copyTo(x, ed)
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					copyTo(x, x.X)
					if from(x.X) == "" && s.slots[slotOf(x.X)] {
						s.markMaybe(x)
					}
				case token.ARROW:
					copyTo(x, x.X)
				}
			case *ssa.Store:
				s.put(slotOf(x.Addr), x.Val)
			case *ssa.MapUpdate:
				s.put("elem "+x.Value.Type().String(), x.Value)
			case *ssa.MakeClosure:
				if g, ok := x.Fn.(*ssa.Function); ok {
					for i, v := range x.Bindings {
						copyTo(g.FreeVars[i], v)
					}
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			var res ssa.Value
			if v, ok := in.(*ssa.Call); ok {
				res = v
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && res != nil {
					copyTo(res, cc.Args[0])
					if len(cc.Args) > 1 {
						if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && holdsPointers(sl.Elem()) {
							// the elements, not the slice
							if from(cc.Args[1]) != "" || s.maybe[cc.Args[1]] {
								s.markMaybe(res)
							}
						}
					}
				}
				continue
			}
			var callees []*ssa.Function
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, cc.Args...)
				it, _ := cc.Value.Type().Underlying().(*types.Interface)
				for _, t := range s.e.concreteImpls(it) {
					if m := s.e.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil && s.in[m] {
						callees = append(callees, m)
					}
				}
			} else if g := cc.StaticCallee(); g != nil && s.in[g] {
				callees = append(callees, g)
			}
			for _, g := range callees {
				for i, a := range args {
					if i < len(g.Params) {
						copyTo(g.Params[i], a)
					}
				}
				if res == nil {
					continue
				}
				for _, gb := range g.Blocks {
					if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
						for _, v := range rt.Results {
							copyTo(res, v)
						}
					}
				}
			}
			if len(callees) == 0 && res != nil && holdsPointers(res.Type()) {
				for _, a := range args {
					if holdsPointers(a.Type()) && (from(a) != "" || s.maybe[a]) {
						s.markMaybe(res)
					}
				}
			}
		}
	}
}

// Functions of other packages to which a pointer into shared memory may be
// handed: they only read it, or are documented as safe for concurrent use.
var sharesSafely = map[string]bool{
	"github.com/antlr4-go/antlr/v4.NewLexerATNSimulator":  true,
	"github.com/antlr4-go/antlr/v4.NewParserATNSimulator": true,
	"errors.Is": true, "errors.Unwrap": true, "errors.Join": true,
}

func safeCallee(f *ssa.Function) bool {
	if sharesSafely[f.String()] {
		return true
	}
	path := ""
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	switch path {
	case "sync", "fmt", "strings", "strconv", "unicode", "unicode/utf8":
		return true
	case "regexp":
		return !strings.Contains(f.Name(), "Longest")
	}
	return false
}

func (s *shareCtx) from(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		return g.String()
	}
	return s.shared[v]
}

func usesLocks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Send, *ssa.Select:
				return true
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() {
					if m := c.Common().Method.Name(); m == "Lock" || m == "RLock" || m == "TryLock" {
						return true
					}
				} else if g := c.Common().StaticCallee(); g != nil {
					if n := g.String(); strings.HasPrefix(n, "(*sync.") && !strings.HasPrefix(n, "(*sync.Once)") || strings.HasPrefix(n, "sync/atomic") || strings.HasPrefix(n, "(*sync/atomic") {
						return true
					}
				}
			}
		}
	}
	return false
}

// locked: the function takes part in a locking discipline, itself or through a caller.
func (s *shareCtx) locked(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if usesLocks(f) {
		return true
	}
	for _, in := range s.uses[f] {
		if s.locked(in.Parent(), seen) {
			return true
		}
	}
	return false
}

// frame: one obligation for each function.
func (s *shareCtx) frame(f *ssa.Function) {
	var bad []string
	write := func(v ssa.Value, in ssa.Instruction, what string) {
		g := s.from(v)
		switch {
		case g != "" && s.locked(f, map[*ssa.Function]bool{}):
			s.guarded[g] = true
			s.unsupported(g + " is " + what + " where locks or atomic operations are used, at " + s.where(in))
		case g != "":
			bad = append(bad, g+" is "+what+" at "+s.where(in))
		case s.maybe[v]:
			s.unsupported("shared memory may be " + what + " at " + s.where(in))
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				write(x.Addr, in, "written")
			case *ssa.MapUpdate:
				write(x.Map, in, "updated")
			case *ssa.Go:
				s.unsupported("a parse starts a goroutine at " + s.where(in))
			case *ssa.Select:
				s.unsupported("a parse communicates at " + s.where(in))
			case *ssa.Send:
				s.unsupported("a parse communicates at " + s.where(in))
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete", "clear", "copy", "close":
					write(cc.Args[0], in, bi.Name()+"ed")
				case "append":
					if g := s.from(cc.Args[0]); g != "" {
						s.unsupported("append to " + g + " may write its spare capacity, at " + s.where(in))
					}
				}
				continue
			}
			if isDo(cc) {
				continue
			}
			g := cc.StaticCallee()
			if g != nil && s.in[g] {
				continue
			}
			args := cc.Args
			if g == nil {
				if !cc.IsInvoke() {
					if fn := s.from(cc.Value); fn != "" {
						s.unsupported("a function kept in " + fn + " is called at " + s.where(in))
					}
				} else {
					if cc.Method.Name() == "Error" && cc.Method.Type().(*types.Signature).Params().Len() == 0 {
						continue
					}
					if fn := s.from(cc.Value); fn != "" {
						s.unsupported("a method of a value kept in " + fn + " is called at " + s.where(in))
					}
				}
			} else if safeCallee(g) {
				continue
			}
			for _, a := range args {
				if gl := s.from(a); gl != "" && holdsPointers(a.Type()) && !isErr(a.Type()) {
					name := "a method"
					if g != nil {
						name = g.String()
					}
					if gi := s.e.roGlobals[globalOf(a)]; gi != nil && gi.kind == "sentinel" {
						continue
					}
					s.unsupported(gl + " is handed to " + name + " at " + s.where(in))
				}
			}
		}
	}
	s.add(funcKey(f)+" writes only memory of its own parse", "frame", bad)
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func globalOf(v ssa.Value) *ssa.Global {
	return rootGlobal(v, map[ssa.Value]bool{})
}

// onceReads: what a once-only function writes is read only after it has run.
func (s *shareCtx) onceReads() {
	wrote := map[*ssa.Global]map[*ssa.Function]bool{}
	for _, f := range s.fns {
		o := s.once[f]
		if o == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					a = x.Addr
				case *ssa.MapUpdate:
					a = x.Map
				default:
					continue
				}
				if g := globalOf(a); g != nil {
					if wrote[g] == nil {
						wrote[g] = map[*ssa.Function]bool{}
					}
					wrote[g][o] = true
				}
			}
		}
	}
	for _, f := range s.fns {
		if !written(f) {
			continue
		}
		bad := map[string][]string{}
		names := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addrs []ssa.Value
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						addrs = append(addrs, x.X)
					}
				case ssa.CallInstruction:
					if isDo(x.Common()) {
						continue
					}
					if c := x.Common().StaticCallee(); c != nil && s.in[c] {
						continue // read there, if at all
					}
					for _, a := range x.Common().Args {
						if !strings.HasPrefix(strings.TrimPrefix(a.Type().String(), "*"), "sync.") {
							addrs = append(addrs, a)
						}
					}
				}
				for _, a := range addrs {
					g, _ := s.pathOf(a)
					if g == nil {
						g = globalOf(a)
					}
					for o := range wrote[g] {
						if s.once[f] == o {
							continue
						}
						n := funcKey(f) + " reads " + g.Name() + " only after " + o.Name() + " has run"
						names[n] = true
						if !s.after(in, o, map[*ssa.Function]bool{}) {
							bad[n] = append(bad[n], "read at "+s.where(in)+" without "+s.path[o]+".Do before it on every path")
						}
					}
				}
			}
		}
		var l []string
		for n := range names {
			l = append(l, n)
		}
		sort.Strings(l)
		for _, n := range l {
			s.add(n, "ownership", bad[n])
		}
	}
}

// ensures: after this call the function has run.
func (s *shareCtx) ensures(in ssa.Instruction, o *ssa.Function, seen map[*ssa.Function]bool) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if isDo(&c.Call) {
		return doneFn(&c.Call) == o
	}
	g := c.Call.StaticCallee()
	if g == nil || !s.in[g] || seen[g] {
		return false
	}
	seen[g] = true
	defer delete(seen, g)
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if !s.ensures(in, o, seen) {
				continue
			}
			all := true
			for _, rb := range g.Blocks {
				if _, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok && !b.Dominates(rb) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (s *shareCtx) after(in ssa.Instruction, o *ssa.Function, seen map[*ssa.Function]bool) bool {
	f := in.Parent()
	before := true
	for _, x := range in.Block().Instrs {
		if x == in {
			before = false
		}
		if before && s.ensures(x, o, map[*ssa.Function]bool{}) {
			return true
		}
	}
	for b := in.Block().Idom(); b != nil; b = b.Idom() {
		for _, x := range b.Instrs {
			if s.ensures(x, o, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	if s.roots[f] || len(s.uses[f]) == 0 {
		return false
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, u := range s.uses[f] {
		if mc, ok := u.(*ssa.MakeClosure); ok {
			if !s.after(mc, o, seen) {
				return false
			}
			continue
		}
		c, ok := u.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() != f || !s.after(u, o, seen) {
			return false
		}
	}
	return true
}

// written: the function stands in the source, or is an instance of one that does.
func written(f *ssa.Function) bool {
	return f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance of")
}

// lockSets: a variable written under a lock is written and read only while
// that lock is held. (Whether a parse then still returns what it would return
// alone is left to the bounded stand-in.)
func (s *shareCtx) lockSets() {
	if len(s.guarded) == 0 {
		return
	}
	s.entry = map[*ssa.Function]map[string]bool{}
	for again := true; again; {
		again = false
		for _, f := range s.fns {
			var h map[string]bool
			known := s.roots[f]
			if s.roots[f] {
				h = map[string]bool{}
			}
			for _, u := range s.uses[f] {
				c, ok := u.(*ssa.Call)
				switch {
				case ok && c.Call.StaticCallee() == f:
					if x := s.heldAt(u); x != nil {
						h, known = meet(h, x, known), true
					}
				default:
					h, known = map[string]bool{}, true
				}
			}
			if len(s.uses[f]) == 0 && !s.roots[f] {
				h, known = map[string]bool{}, true
			}
			if !known {
				continue // not entered yet
			}
			if old, ok := s.entry[f]; !ok || len(old) != len(h) {
				s.entry[f] = h
				again = true
			}
		}
	}
	bad := map[string][]string{}
	common := map[string]map[string]bool{}
	seen := map[string]bool{}
	for _, f := range s.fns {
		if s.once[f] != nil || !written(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				w := false
				switch x := in.(type) {
				case *ssa.Store:
					a, w = x.Addr, true
				case *ssa.MapUpdate:
					a, w = x.Map, true
				case *ssa.Lookup:
					a = x.X
				case *ssa.Range:
					a = x.X
				case *ssa.UnOp:
					if x.Op == token.MUL {
						a = x.X
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
						a, w = x.Call.Args[0], bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy"
					}
				}
				if a == nil {
					continue
				}
				g := s.from(a)
				if !s.guarded[g] {
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.X == a {
					// reading the variable itself when only what it points at changes
					if _, direct := a.(*ssa.Global); direct && !s.stored(g) {
						continue
					}
				}
				h := s.heldAt(in)
				if h["?"] {
					return
				}
				for l := range h {
					if w && strings.HasSuffix(l, " (shared)") {
						delete(h, l)
					}
				}
				plain := map[string]bool{}
				for l := range h {
					plain[strings.TrimSuffix(l, " (shared)")] = true
				}
				common[g] = meet(common[g], plain, seen[g])
				seen[g] = true
				if len(h) == 0 {
					bad[g] = append(bad[g], "no lock is held at "+s.where(in))
				}
			}
		}
	}
	if s.atomics {
		return
	}
	for _, g := range sortedKeys(seen) {
		if len(common[g]) == 0 && len(bad[g]) == 0 {
			bad[g] = append(bad[g], "no lock is common to every access")
		}
		s.add(g+" is written and read only while its lock is held", "ownership", bad[g])
	}
}

// stored: the variable itself is assigned by a function that parses reach.
func (s *shareCtx) stored(g string) bool {
	for _, f := range s.fns {
		if s.once[f] != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if x, ok := st.Addr.(*ssa.Global); ok && x.String() == g {
						return true
					}
				}
			}
		}
	}
	return false
}

func meet(a, b map[string]bool, known bool) map[string]bool {
	r := map[string]bool{}
	for l := range b {
		if !known || a[l] {
			r[l] = true
		}
	}
	return r
}

func (s *shareCtx) lockStep(h map[string]bool, in ssa.Instruction) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	name := ""
	var recv ssa.Value
	if g := c.Call.StaticCallee(); g != nil {
		switch n := g.String(); {
		case n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock" || n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Unlock" || n == "(*sync.RWMutex).RLock" || n == "(*sync.RWMutex).RUnlock":
			name, recv = g.Name(), c.Call.Args[0]
		case strings.HasPrefix(n, "sync/atomic") || strings.HasPrefix(n, "(*sync/atomic") || strings.HasPrefix(n, "(*sync.") && !isDo(&c.Call):
			s.atomics = true
		}
	} else if c.Call.IsInvoke() && strings.HasSuffix(c.Call.Method.Name(), "Lock") {
		s.atomics = true
	}
	if name == "" {
		return
	}
	_, p := s.pathOf(recv)
	if p == "" {
		p = s.from(recv)
	}
	if p == "" {
		p = "?"
	}
	switch name {
	case "Lock":
		h[p] = true
	case "RLock":
		h[p+" (shared)"] = true
	case "Unlock":
		delete(h, p)
	case "RUnlock":
		delete(h, p+" (shared)")
	}
}

// heldAt: the locks held on every path to the instruction; nil if it is not
// known to be reached.
func (s *shareCtx) heldAt(at ssa.Instruction) map[string]bool {
	f := at.Parent()
	e0, ok := s.entry[f]
	if !ok {
		return nil
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: e0}
	if f.Recover != nil {
		in[f.Recover] = map[string]bool{}
	}
	out := func(b *ssa.BasicBlock, stop ssa.Instruction) map[string]bool {
		h := map[string]bool{}
		for l := range in[b] {
			h[l] = true
		}
		for _, x := range b.Instrs {
			if x == stop {
				break
			}
			s.lockStep(h, x)
		}
		return h
	}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			if in[b] == nil {
				continue
			}
			o := out(b, nil)
			for _, n := range b.Succs {
				old, known := in[n]
				m := meet(old, o, known)
				if !known || len(m) != len(old) {
					in[n] = m
					again = true
				}
			}
		}
	}
	if in[at.Block()] == nil {
		return nil
	}
	return out(at.Block(), at)
}

// ownOnce: the Once is made by the function that uses it.
func ownOnce(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return ownOnce(x.X)
	}
	return false
}
