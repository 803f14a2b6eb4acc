// The check of one property: generate and discharge the obligations of its contracts, execute them natively, report.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type ObResult struct {
	Name, Kind, Pos string
	OK              bool
	How             string
	T               float64
	Guard, Cond     string
}

type WorkResult struct {
	Contract string
	Target   string
	Kind     string
	Err      string
	Obl      []ObResult
	Assume   []string
	Domain   []string
	Inlined  []string
	Via      []string
	Instrs   int
	Gen      float64
	SolverT  float64
	Reach    string
}

// worker processes the named contracts, one JSON line each.
func worker(p *Program, names []string, sec int) {
	byName := map[string]*Contract{}
	for _, c := range p.contracts {
		byName[c.Name] = c
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var wmu sync.Mutex
	for _, n := range names {
		c := byName[n]
		if c == nil {
			continue
		}
		fmt.Fprintf(w, "START %s\n", n)
		w.Flush()
		r := gen(p, c)
		wr := WorkResult{Contract: c.Name, Target: c.TargetN, Kind: c.Kind, Err: r.Err, Assume: r.Assume, Domain: r.Domain, Inlined: r.Inlined, Via: r.Via, Instrs: r.Instrs, Gen: r.GenTime}
		st0 := solverTime
		var tasks []*proofTask
		for _, o := range r.Obl {
			pt := &proofTask{o: o}
			pt.prepare()
			tasks = append(tasks, pt)
		}
		var reach *proofTask
		if g := reachGuards[c]; g != nil {
			if g == True {
				wr.Reach = "sat"
			} else {
				reach = &proofTask{o: &Oblig{Guard: g, Cond: False}}
				reach.prepare()
				if reach.ok {
					wr.Reach = "unsat"
					reach = nil
				}
			}
		} else if r.Reach != "" {
			wr.Reach = r.Reach
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 3)
		for _, pt := range tasks {
			if pt.ok {
				continue
			}
			wg.Add(1)
			sem <- true
			go func(pt *proofTask) {
				defer wg.Done()
				pt.solve(sec)
				<-sem
			}(pt)
		}
		if reach != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := portfolio([]job{{"z3", argvZ3n, reach.euf}}, 5).verdict
				wmu.Lock()
				wr.Reach = v
				wmu.Unlock()
			}()
		}
		wg.Wait()
		for _, pt := range tasks {
			o := pt.o
			or := ObResult{Name: o.Name, Kind: o.Kind, Pos: o.Pos, OK: pt.ok, How: pt.how, T: pt.t}
			if !pt.ok {
				or.Guard, or.Cond = short(o.Guard.String(), 4000), short(o.Cond.String(), 8000)
			}
			wr.Obl = append(wr.Obl, or)
		}
		wr.SolverT = solverTime - st0
		js, _ := json.Marshal(wr)
		fmt.Fprintf(w, "RESULT %s\n", js)
		w.Flush()
	}
}

type Known struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"` // prefix of the failing obligation or native failure; empty = any
	What       string `json:"what"`
}

// cpuTime is the processor time a process has used.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

// cpuNow is the processor time this process has used.
func cpuNow() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func runWorkers(self, repo, cdir string, names []string, nw, sec int, limit time.Duration) map[string]*WorkResult {
	out := map[string]*WorkResult{}
	var mu sync.Mutex
	// one process per contract: the normal forms, and so the proofs, do not depend on what else is proved
	var wg sync.WaitGroup
	sem := make(chan bool, nw)
	var batches [][]string
	for _, n := range names {
		batches = append(batches, []string{n})
	}
	for _, b := range batches {
		if len(b) == 0 {
			continue
		}
		wg.Add(1)
		go func(left []string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			for len(left) > 0 {
				cmd := exec.Command(self, "-repo", repo, "-contracts", cdir, "-worker", strings.Join(left, ","), "-sec", strconv.Itoa(sec))
				var eb bytes.Buffer
				cmd.Stderr = &eb
				pipe, _ := cmd.StdoutPipe()
				cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
				if err := cmd.Start(); err != nil {
					return
				}
				cur := ""
				started, cpu0 := time.Now(), time.Duration(0)
				var tm sync.Mutex
				done := make(chan bool)
				timedOut := false
				go func() {
					for {
						select {
						case <-done:
							return
						case <-time.After(time.Second):
							tm.Lock()
							d, c := time.Since(started), cpuTime(cmd.Process.Pid)-cpu0
							tm.Unlock()
							// the limit is on processor time, so that a busy machine does not turn into an alarm
							if c > limit || d > 2*limit-time.Minute {
								timedOut = true
								cmd.Process.Kill()
								return
							}
						}
					}
				}()
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 1<<28)
				got := map[string]bool{}
				for sc.Scan() {
					l := sc.Text()
					if strings.HasPrefix(l, "START ") {
						tm.Lock()
						cur, started, cpu0 = l[6:], time.Now(), cpuTime(cmd.Process.Pid)
						tm.Unlock()
					}
					if strings.HasPrefix(l, "RESULT ") {
						var r WorkResult
						if json.Unmarshal([]byte(l[7:]), &r) == nil {
							mu.Lock()
							out[r.Contract] = &r
							mu.Unlock()
							got[r.Contract] = true
							cur = ""
						}
					}
				}
				cmd.Wait()
				close(done)
				if cur != "" {
					msg := "the condition generator failed: " + firstLine(eb.String())
					if timedOut {
						msg = fmt.Sprintf("the condition generator gave no answer within %s of processor time", limit)
					}
					mu.Lock()
					out[cur] = &WorkResult{Contract: cur, Err: msg}
					mu.Unlock()
					got[cur] = true
				}
				var rest []string
				for _, n := range left {
					if !got[n] {
						rest = append(rest, n)
					}
				}
				if len(rest) == len(left) {
					for _, n := range rest {
						mu.Lock()
						out[n] = &WorkResult{Contract: n, Err: "not processed: " + firstLine(eb.String())}
						mu.Unlock()
					}
					return
				}
				left = rest
			}
		}(b)
	}
	wg.Wait()
	if nw > 1 {
		// a process may have been ended for lack of memory: once more, one after another
		var again []string
		for n, r := range out {
			if strings.HasPrefix(r.Err, "not processed") || strings.HasPrefix(r.Err, "the condition generator failed") {
				again = append(again, n)
			}
		}
		sort.Strings(again)
		if len(again) > 0 && len(again) <= 12 {
			for n, r := range runWorkers(self, repo, cdir, again, 1, sec, limit) {
				out[n] = r
			}
		}
	}
	return out
}

func short1(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func checkMain(repo, verif, prop, tier string, seed int64, verbose bool) int {
	t0 := time.Now()
	cdir := filepath.Join(verif, "contracts")
	work, err := ioutil.TempDir("", "vc_"+prop+"_")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	rdir := filepath.Join(verif, "replay")
	os.MkdirAll(rdir, 0755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	violations := 0
	var known []Known
	if b, err := ioutil.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var f struct {
			Findings []Known `json:"findings"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
		known = f.Findings
	}
	report := func(name, text string, concrete bool) {
		f := filepath.Join(rdir, prop+"_"+name+".txt")
		ioutil.WriteFile(f, []byte(text), 0644)
		violations++
		l := "VIOLATION property=" + prop + " replay=" + f
		if !concrete {
			l += " no-failing-input-found"
		}
		fmt.Println(l)
	}
	p, err := loadProgram(repo, cdir, []string{"./..."})
	if err != nil {
		report("load", "the code under /repo could not be loaded with its contracts:\n"+err.Error()+"\n", false)
		return 1
	}
	loadT := time.Since(t0).Seconds()
	byName := map[string]*Contract{}
	for _, c := range p.contracts {
		byName[c.Name] = c
	}
	// selection: contracts of the property, then (after generation) the contracts their proofs rely on
	var sel []string
	for _, c := range p.contracts {
		if has(c.Props, prop) && strings.Contains(c.Pos, os.Getenv("VC_PKG")) {
			sel = append(sel, c.Name)
		}
	}
	self, _ := os.Executable()
	sec, ms, limit := 8, int64(1500), 270*time.Second
	if tier == "thorough" {
		sec, ms, limit = 60, 20000, 600*time.Second
	}
	results := map[string]*WorkResult{}
	done := map[string]bool{}
	var order []string
	var nres []NativeResult
	nerrs := map[string]string{}
	todo := sel
	firstRound := true
	for len(todo) > 0 {
		var prove []string
		var cs []*Contract
		for _, n := range todo {
			done[n] = true
			order = append(order, n)
			c := byName[n]
			cs = append(cs, c)
			if c.Kind != "bounded" {
				prove = append(prove, n)
			}
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := nativeOpts{seed: seed, ms: ms, work: filepath.Join(work, fmt.Sprintf("n%d", len(order))), nativeDir: filepath.Join(verif, "native")}
			if !firstRound {
				o.ms = ms / 3
			}
			os.MkdirAll(o.work, 0755)
			r, e := p.runNative(cs, o)
			nres = append(nres, r...)
			for k, v := range e {
				nerrs[k] = v
			}
		}()
		nw := 6
		if len(prove) < nw {
			nw = len(prove)
		}
		if nw > 0 {
			for k, v := range runWorkers(self, repo, cdir, prove, nw, sec, limit) {
				results[k] = v
			}
		}
		wg.Wait()
		var next []string
		for _, n := range prove {
			if r := results[n]; r != nil {
				for _, v := range r.Via {
					if !done[v] && byName[v] != nil {
						done[v] = true
						next = append(next, v)
					}
				}
			}
		}
		sort.Strings(next)
		todo = next
		firstRound = false
	}
	native := map[string]NativeResult{}
	for _, r := range nres {
		native[r.Case] = r
	}
	// a second, longer search for a failing input where a proof failed
	var again []*Contract
	for _, n := range order {
		if r := results[n]; r != nil && failedProof(r) && !native[n].Fail {
			if c := byName[n]; c.Broken == "" {
				again = append(again, c)
			}
		}
	}
	if len(again) > 0 {
		b := int64(60000 / len(again))
		if b > 20000 {
			b = 20000
		}
		o := nativeOpts{seed: seed + 77, ms: b, work: filepath.Join(work, "again"), nativeDir: filepath.Join(verif, "native")}
		os.MkdirAll(o.work, 0755)
		r, _ := p.runNative(again, o)
		for _, x := range r {
			if x.Fail {
				native[x.Case] = x
			}
		}
	}
	// ---- verdicts
	isKnown := func(contract, what string) *Known {
		for i := range known {
			k := &known[i]
			if k.Contract == contract && strings.HasPrefix(what, k.Obligation) {
				return k
			}
		}
		return nil
	}
	obl, disch := 0, 0
	backends := map[string]int{}
	solverT := 0.0
	trusted := map[string]bool{}
	var functions, bounded, samples []string
	evals, nontriv := 0, 0
	printed := map[string]bool{}
	unproved := []string{}
	for _, n := range order {
		c := byName[n]
		r := results[n]
		nr, hasN := native[n]
		if hasN {
			evals += nr.Tried
			nontriv += nr.Ran
		}
		if c.Kind == "bounded" {
			bounded = append(bounded, fmt.Sprintf("%s: %d generated inputs (bounded, not proved)", n, nr.Ran))
		} else {
			functions = append(functions, n+" -> "+c.TargetN)
		}
		var fails []ObResult
		if r != nil {
			for _, o := range r.Obl {
				obl++
				if o.OK {
					disch++
					backends[o.How]++
				} else {
					fails = append(fails, o)
				}
			}
			solverT += r.SolverT
			for _, a := range r.Assume {
				trusted[a] = true
			}
			for _, a := range r.Domain {
				trusted["domain of "+n+": no "+a+" in the contract's expressions (proved at call sites through summaries, assumed at entry points)"] = true
			}
			if r.Err != "" {
				obl++
				fails = append(fails, ObResult{Name: "contract is within the verifier's reach", Kind: "reach", Guard: "", Cond: r.Err})
			} else if len(r.Obl) == 0 || r.Reach == "unsat" {
				obl++
				fails = append(fails, ObResult{Name: "contract is not vacuous", Kind: "vacuity", Cond: fmt.Sprintf("%d obligations, precondition %s", len(r.Obl), r.Reach)})
			}
		} else if c.Kind != "bounded" {
			obl++
			fails = append(fails, ObResult{Name: "contract was processed", Kind: "reach"})
		}
		var txt strings.Builder
		fmt.Fprintf(&txt, "property  %s\ncontract  %s (%s)\nfunction  %s\n\n", prop, n, c.Pos, c.TargetN)
		nf := 0
		for _, o := range fails {
			if k := isKnown(n, o.Kind+": "+o.Name); k != nil {
				if !printed[k.What] {
					printed[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				obl-- // reported as a finding, not counted
				continue
			}
			nf++
			unproved = append(unproved, n+": "+o.Kind+" "+o.Name)
			if nf <= 12 {
				fmt.Fprintf(&txt, "obligation not discharged: [%s] %s %s\n  solver: %s (%.1f s)\n  under:  %s\n  show:   %s\n\n", o.Kind, o.Name, o.Pos, o.How, o.T, o.Guard, o.Cond)
			}
		}
		concrete := false
		if hasN && nr.Fail {
			if k := isKnown(n, "native: "+nr.What); k != nil {
				if !printed[k.What] {
					printed[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
			} else {
				concrete = true
				nf++
				fmt.Fprintf(&txt, "failing input (replayed against the real code): %s\n  arguments:\n    %s\n  contract says:\n    %s\n  the code gives:\n    %s\n\n  replay: VERIF_SEED=%d %s/check %s replay %s\n  case seed %d\n", nr.What, nr.Args, nr.Want, nr.Got, seed, verif, prop, n, nr.Seed)
			}
		}
		if nf > 0 {
			report(n, txt.String(), concrete)
		}
		if verbose && r != nil {
			fmt.Printf("  %-40s obl=%d failed=%d gen=%.1fs solver=%.1fs native=%d/%d reach=%s %s\n", n, len(r.Obl), len(fails), r.Gen, r.SolverT, nr.Ran, nr.Tried, r.Reach, short1(r.Err, 200))
			for _, o := range fails {
				fmt.Printf("      FAILED [%s] %s %s (%s)\n", o.Kind, o.Name, o.Pos, o.How)
			}
			if nr.Fail {
				fmt.Printf("      NATIVE %s\n", nr.What)
			}
		} else if verbose {
			fmt.Printf("  %-40s bounded native=%d/%d %.1fs %s\n", n, nr.Ran, nr.Tried, nr.Seconds, nr.What)
		}
		if len(samples) < 3 && r != nil && len(r.Obl) > 0 {
			o := r.Obl[len(r.Obl)-1]
			samples = append(samples, fmt.Sprintf("%s: [%s] %s %s discharged by %s", n, o.Kind, o.Name, o.Pos, o.How))
		}
	}
	var pkgErr []string
	for k := range nerrs {
		pkgErr = append(pkgErr, k)
	}
	sort.Strings(pkgErr)
	for _, k := range pkgErr {
		report("native_"+strings.Replace(filepath.Base(k), "/", "_", -1), nerrs[k], false)
	}
	// contracts that no longer match the code
	dropped := []string{}
	for _, c := range p.missingC {
		if has(c.Props, prop) {
			dropped = append(dropped, c.Name+": "+c.TargetN+" no longer exists; its callers are verified with its replacement inlined")
			if c.Flags["root"] {
				report(c.Name, "the function under contract, "+c.TargetN+", no longer exists\n", false)
			}
		}
	}
	for _, x := range p.removed {
		dropped = append(dropped, "contract text does not type-check against the code: "+x)
	}
	if verbose {
		for _, d := range dropped {
			fmt.Println("  dropped:", d)
		}
	}
	if len(sel) == 0 {
		report("none", "no contract of this property matches the code any more\n", false)
	}
	tb := []string{
		"the verification-condition generator /verif/vc (symbolic execution of go/ssa, loop closed forms, simplifier) and go/ssa itself",
		"z3 4.8.12, z3 5.x and cvc5 1.1.2 (an obligation counts as discharged when one of them, or the simplifier, accepts it)",
		"machine integers are mathematical integers; int conversions of constants excepted",
		"slices are values: distinct slice variables are assumed not to share a backing array unless one was made from the other in the function under contract",
		"pointers reached from different arguments are compared by reference; input objects are well-formed (no dangling references)",
		"standard library functions follow the models in /verif/vc/models.go (strings, strconv, fmt, errors, sort, reflect.DeepEqual, database/sql as an external event trace)",
		"no concurrent mutation of the arguments; memory exhaustion and stack exhaustion are not modelled",
	}
	var tk []string
	for a := range trusted {
		tk = append(tk, a)
	}
	sort.Strings(tk)
	tb = append(tb, tk...)
	lvl := levelOf(verif, prop)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl, "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": disch, "checker_cmd": "/verif/check " + prop + " " + tier, "trusted_base": tb,
			"functions_under_contract": functions, "bounded_stand_ins": bounded, "discharged_by": backends, "solver_seconds": solverT, "load_seconds": loadT,
			"evaluations": evals, "distinct_nontrivial": nontriv,
			"rule":    "each contract is also executed natively on generated arguments (near-copies included); an input is non-trivial when it satisfies the contract's precondition",
			"samples": samples, "not_discharged": unproved, "dropped_contracts": dropped,
			"explanation": "obligations generated from /repo's current source by symbolic execution of go/ssa against the contracts in /verif/contracts",
		},
		"assumptions": tb,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	ioutil.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0644)
	fmt.Printf("%s %s: %d contracts, %d/%d obligations discharged, %d native inputs, %d violations, %.1f s\n", prop, tier, len(order), disch, obl, nontriv, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func levelOf(verif, prop string) string {
	b, err := ioutil.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err != nil {
		return "proof"
	}
	var m struct {
		Checks []struct{ Property, Level string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "proof"
}

func failedProof(r *WorkResult) bool {
	if r.Err != "" || len(r.Obl) == 0 || r.Reach == "unsat" {
		return true
	}
	for _, o := range r.Obl {
		if !o.OK {
			return true
		}
	}
	return false
}
