package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callRec is one call that a contract observes: contracts of entry points
// speak about what was called with what, not only about values.
type callRec struct {
	key  string
	args []Val
	argT []types.Type
	res  []Val
	resT []types.Type
}

func (e *Engine) observed(key string) bool {
	return e.cur != nil && e.cur.spec != nil && has(e.cur.spec.observe, key)
}

func (e *Engine) observeCall(st *State, key string, args []Val, argT []types.Type, sig *types.Signature, k Cont) Cont {
	if e.rec != nil {
		unsup("call of %s inside a loop", key)
	}
	rec := &callRec{key: key, args: args, argT: argT}
	for i := 0; i < sig.Results().Len(); i++ {
		rec.resT = append(rec.resT, sig.Results().At(i).Type())
	}
	at := len(st.calls)
	st.calls = append(st.calls[:at:at], rec)
	return Cont{
		ret: func(st *State, res []Val) {
			r := *rec
			r.res = res
			cs := append([]*callRec(nil), st.calls...)
			cs[at] = &r
			st.calls = cs
			k.ret(st, res)
		},
		pan: k.pan,
	}
}

// atExit: the process ends here.
func (e *Engine) atExit(st *State, code Val) {
	if st.cut || e.mute || e.rec != nil {
		return
	}
	u := e.cur
	if len(u.spec.exits) == 0 {
		e.oblig(st, tFalse, "does not end the process", "exit", u.allProps())
		return
	}
	en := e.unitEnv(st)
	en.vars["code"] = sval{code, types.Typ[types.Int]}
	for _, c := range u.spec.exits {
		e.oblig(st, e.evalBool(en, c.x), "at exit: "+c.src, "exit", c.props)
	}
}

// entryPoints finds functions that have no name of their own: the value of a
// field of a package-level structure, or the function handed to a registrar.
func (e *Engine) entryPoints() {
	fnOf := func(v ssa.Value) *ssa.Function {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeClosure:
				if len(x.Bindings) > 0 {
					return nil
				}
				f, _ := x.Fn.(*ssa.Function)
				return f
			case *ssa.Function:
				return x
			}
			return nil
		}
	}
	for _, fn := range e.allFns {
		if !e.isRepoFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || typeName(st.Elem()) != "cobra.Command" {
						continue
					}
					f := fnOf(x.Val)
					if f == nil || !e.isRepoFn(f) {
						continue
					}
					k := fn.Pkg.Pkg.Name() + ".command." + st.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
					if _, dup := e.fnByKey[k]; dup {
						e.fnByKey[k] = nil // more than one command
					} else {
						e.fnByKey[k] = f
					}
				case *ssa.Call:
					c := x.Call.StaticCallee()
					if c != nil && funcKey(c) == "js.FuncOf" {
						if f := fnOf(x.Call.Args[0]); f != nil {
							e.fnByKey["wasm.exposed"] = f
						}
					}
				}
			}
		}
	}
	for k, f := range e.fnByKey {
		if f == nil {
			delete(e.fnByKey, k)
		}
	}
}

var wasmMode bool

func pkgKey(p *types.Package) string {
	if wasmMode && p.Name() == "main" {
		return "wasm"
	}
	return p.Name()
}

func isPkgInit(fn *ssa.Function) bool { return strings.HasPrefix(fn.Synthetic, "package init") }

// silentChan: a channel made here on which nobody can send, or none at all:
// receiving from it never ends.
func silentChan(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeChan:
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op.String() != "<-" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

// atPark: the goroutine sleeps for ever here.
func (e *Engine) atPark(st *State) {
	if st.cut || e.mute || e.rec != nil {
		return
	}
	u := e.cur
	if len(u.spec.parks) == 0 {
		e.oblig(st, tFalse, "does not block for ever", "park", u.allProps())
		return
	}
	en := e.unitEnv(st)
	for _, c := range u.spec.parks {
		e.oblig(st, e.evalBool(en, c.x), "when it sleeps: "+c.src, "park", c.props)
	}
}
