package main

import (
	"fmt"
	"go/token"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// selfTest executes every function of the loaded packages symbolically and reports what is out of reach.
func selfTest(p *Program, only string) {
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if f.Name() == "generateDDLs" && only == "" || strings.HasPrefix(f.Name(), "zz") || f.Name() == "init" {
			continue
		}
		if only != "" && !strings.Contains(f.String(), only) {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		func() {
			t0 := time.Now()
			e := newExec(p, &Contract{Fn: f})
			st := &State{guard: True, heap: map[string]*Term{}, cells: map[*Term]*Term{}}
			msg := "ok"
			size := 0
			done := make(chan bool)
			go func() {
				defer close(done)
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							msg = "UNSUPPORTED " + u.msg
							return
						}
						msg = fmt.Sprintf("PANIC %v %s", r, debug.Stack())
					}
				}()
				v, _ := e.callFn(f, e.inputs(f), nil, st, token.NoPos)
				if t, ok := v.(*Term); ok {
					size = t.size
				}
			}()
			select {
			case <-done:
			case <-time.After(30 * time.Second):
				fmt.Printf("%-60s TIMEOUT\n", short(f.String(), 60))
				panic("timeout: cannot go on")
			}
			fmt.Printf("%-60s %5.2fs obl=%d size=%d %s\n", short(f.String(), 60), time.Since(t0).Seconds(), len(e.obl), size, short(msg, 300))
		}()
	}
}
