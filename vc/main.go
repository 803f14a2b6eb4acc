package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("only", "", "contract name substring")
	prop := flag.String("prop", "", "")
	verbose := flag.Bool("v", false, "")
	noSolve := flag.Bool("nosolve", false, "")
	pats := flag.String("pkgs", "./...", "")
	self := flag.Bool("self", false, "")
	wk := flag.String("worker", "", "")
	sec := flag.Int("sec", 8, "")
	chk := flag.String("check", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	if *chk != "" {
		os.Exit(checkMain(*repo, *verif, *chk, *tier, *seed, *verbose))
	}
	if *wk != "" {
		p, err := loadProgram(*repo, *cdir, []string{"./..."})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		worker(p, strings.Split(*wk, ","), *sec)
		return
	}
	t0 := time.Now()
	p, err := loadProgram(*repo, *cdir, strings.Split(*pats, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs, %d contracts, missing %v\n", time.Since(t0).Seconds(), len(p.contracts), p.missing)
	if *self {
		selfTest(p, *only)
		return
	}
	for _, c := range p.contracts {
		if *only != "" && !strings.Contains(c.Name, *only) {
			continue
		}
		if *prop != "" && !has(c.Props, *prop) {
			continue
		}
		if c.Kind == "bounded" {
			continue
		}
		r := gen(p, c)
		fmt.Printf("== %s (%s) obligations=%d gen=%.2fs instrs=%d terms=%d err=%s\n", c.Name, c.TargetN, len(r.Obl), r.GenTime, r.Instrs, termCount, r.Err)
		for _, o := range r.Obl {
			if oi := os.Getenv("VC_OBL"); oi != "" && !strings.Contains(o.Kind+": "+o.Name, oi) {
				continue
			}
			if os.Getenv("VC_CONJ") != "" {
				for _, c := range conj(o.Guard) {
					fmt.Printf("  G[%d] %s\n", c.size, short(c.String(), 700))
				}
				for _, c := range conj(o.Cond) {
					fmt.Printf("  C[%d] %s\n", c.size, short(c.String(), 60000))
				}
			}
			if os.Getenv("VC_DIFF") != "" && !o.Cond.isConst() {
				c := o.Cond
				for i := 0; i < 3; i++ {
					c = under(o.Guard, c)
				}
				n := 0
				var eqs func(t *Term)
				seen := map[*Term]bool{}
				eqs = func(t *Term) {
					if seen[t] {
						return
					}
					seen[t] = true
					if t.op == OEq && t.args[0].size > 20 && t.args[1].size > 20 {
						fmt.Printf("  EQ %d %d\n", t.args[0].size, t.args[1].size)
						diffTerms(t.args[0], t.args[1], &n, map[[2]*Term]bool{})
						return
					}
					if t.op == OOr || t.op == OAnd || t.op == ONot || t.op == OIte {
						for _, x := range t.args {
							eqs(x)
						}
					}
				}
				eqs(c)
			}
			if *noSolve {
				fmt.Printf("  [%s] %s %s\n     guard: %s\n     cond: %s\n", o.Kind, o.Name, o.Pos, short(o.Guard.String(), 600), short(o.Cond.String(), 3000))
				continue
			}
			t1 := time.Now()
			ok, how := proveObl(o)
			if !ok || *verbose {
				fmt.Printf("  %v [%s] %s %s (%s %.2fs)\n", ok, o.Kind, o.Name, o.Pos, how, time.Since(t1).Seconds())
			}
			if !ok {
				fmt.Printf("     guard: %s\n     cond: %s\n", short(o.Guard.String(), 1500), short(o.Cond.String(), 4000))
			}
		}
	}
}

func has(xs []string, x string) bool {
	if x == "ALL" {
		return true
	}
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// diffTerms prints the smallest differing parts of two terms (debugging aid).
func diffTerms(a, b *Term, n *int, seen map[[2]*Term]bool) {
	if a == b || *n > 12 || seen[[2]*Term{a, b}] {
		return
	}
	seen[[2]*Term{a, b}] = true
	if a.op == b.op && a.name == b.name && len(a.args) == len(b.args) && a.op != OAdd && len(a.args) > 0 {
		d := 0
		for i := range a.args {
			if a.args[i] != b.args[i] {
				d++
			}
		}
		if d <= 2 || a.op == OMk || a.op == OIte {
			for i := range a.args {
				diffTerms(a.args[i], b.args[i], n, seen)
			}
			return
		}
	}
	if (a.op == OAnd || a.op == OOr || a.op == OConcat) && a.op == b.op {
		in := func(t *Term, x *Term) bool {
			for _, y := range t.args {
				if x == y {
					return true
				}
			}
			return false
		}
		var xs, ys []*Term
		for _, x := range a.args {
			if !in(b, x) {
				xs = append(xs, x)
			}
		}
		for _, x := range b.args {
			if !in(a, x) {
				ys = append(ys, x)
			}
		}
		if len(xs) == len(ys) {
			for i := range xs {
				diffTerms(xs[i], ys[i], n, seen)
			}
			return
		}
		*n++
		fmt.Printf("   DIFF %d in %s: %d vs %d\n", *n, opNames[a.op], len(xs), len(ys))
		for _, x := range xs {
			fmt.Printf("     - [%d] %s\n", x.size, short(x.String(), 1500))
		}
		for _, x := range ys {
			fmt.Printf("     + [%d] %s\n", x.size, short(x.String(), 1500))
		}
		return
	}
	*n++
	fmt.Printf("   DIFF %d\n     - [%d] %s\n     + [%d] %s\n", *n, a.size, short(a.String(), 1500), b.size, short(b.String(), 1500))
}
