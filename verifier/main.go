package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover unit KEY | list | check PROP")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "unit":
		cmdUnit(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2], os.Args[3], os.Args[4:])
	case "check":
		os.Exit(cmdCheck(os.Args[2], os.Args[3]))
	case "list":
		e := mustLoad(os.Getenv("GOVER_WASM") != "", "")
		for _, k := range sortedKeys(e.fnByKey) {
			fmt.Println(k)
		}
		for k, m := range e.specMissing {
			fmt.Println("MISSING", k, m)
		}
	}
}

func specDir() string {
	if d := os.Getenv("GOVER_SPECS"); d != "" {
		return d
	}
	return "/verif/contracts"
}

func mustLoad(wasm bool, group string) *Engine {
	e, err := load(wasm)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	e.useSpecs(specDir(), group)
	return e
}

func cmdUnit(args []string) {
	group := ""
	curProp = os.Getenv("GOVER_PROP")
	if len(args) > 0 {
		group = specGroup(args[0])
	}
	e := mustLoad(os.Getenv("GOVER_WASM") != "", group)
	for k, m := range e.specMissing {
		fmt.Println("MISSING", k, m)
	}
	for _, k := range args {
		sp := e.specs.funcs[k]
		if sp == nil {
			fmt.Println("no contract for", k)
			continue
		}
		fn := e.fnByKey[k]
		e.obls = nil
		e.paths, e.steps = 0, 0
		if err := e.verifyUnit(fn, sp); err != nil {
			fmt.Println(k, "ERROR", err)
			continue
		}
		fmt.Println(k, "paths", e.paths, "obligations", len(e.obls))
		e.solve(nil)
		if e.vacuous(e.cur) {
			fmt.Println("  VACUOUS")
		}
		bad := 0
		for _, o := range e.obls {
			if o.status != "proved" {
				bad++
				fmt.Printf("  %s %s %v\n     trace %v\n", o.status, o.name, o.props, o.trace)
				if os.Getenv("GOVER_GOAL") != "" {
					fmt.Println("     goal", o.goal)
					for _, f := range o.facts {
						fmt.Println("        ", trunc(f.String(), 300))
					}
				}
			} else if os.Getenv("GOVER_ALL") != "" {
				fmt.Printf("  proved %s %v [%s %.2f]\n", o.name, o.props, o.solver, o.secs)
			}
		}
		fmt.Println(k, "unproved:", bad)
	}
	for n := range e.notes {
		fmt.Println("note:", n)
	}
	solverStats.Lock()
	fmt.Println(solverStats.calls, solverStats.secs)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}
