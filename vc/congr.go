package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// Loops of the code and of the contract appear in an obligation as terms over the bodies of one iteration. Two such
// terms over the same range are equal when their bodies are equal for every index; congr proves that body by body and
// replaces one by the other.

type congr struct {
	deadline time.Duration
	tried    map[[2]*Term]bool
}

func binders(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OEx, OFlatMap, OFirst:
			if t.loose == 0 {
				out = append(out, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

func (cg *congr) rewrite(g, c *Term, depth int) *Term {
	for round := 0; round < 6; round++ {
		if c.isConst() || cpuNow() > cg.deadline {
			return c
		}
		bs := binders(c)
		type pair struct {
			a, b *Term
			d    int
		}
		var ps []pair
		for i, a := range bs {
			for _, b := range bs[i+1:] {
				if a.op != b.op || a.args[0] != b.args[0] || a == b || cg.tried[[2]*Term{a, b}] || len(a.args) != len(b.args) {
					continue
				}
				if len(a.args[1].bs) != len(b.args[1].bs) || len(a.args[1].bs) != 1 || a.args[1].sort != b.args[1].sort {
					continue
				}
				d := a.size - b.size
				if d < 0 {
					d = -d
				}
				m := a.size
				if b.size < m {
					m = b.size
				}
				// very different bodies are rarely the same loop
				if d > 6*m {
					continue
				}
				ps = append(ps, pair{a, b, a.size + b.size})
			}
		}
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].d < ps[j].d })
		hit := false
		for _, p := range ps {
			if cpuNow() > cg.deadline {
				return c
			}
			cg.tried[[2]*Term{p.a, p.b}] = true
			cg.tried[[2]*Term{p.b, p.a}] = true
			freshN++
			k := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
			gg := mkAnd(g, mkLe(mkInt(0), k), mkLt(k, p.a.args[0]))
			for _, h := range conj(g) {
				if h.op == ONot && h.args[0].op == OEx && h.args[0].args[0] == p.a.args[0] {
					gg = mkAnd(gg, mkNot(inst(h.args[0].args[1], k)))
				}
			}
			ga, gb := inst(p.a.args[1], k), inst(p.b.args[1], k)
			if ga.sort != gb.sort {
				continue
			}
			goal := mkEq(ga, gb)
			if refuted(goal) {
				continue
			}
			ok := cg.holds(gg, goal, depth+1)
			if os.Getenv("VC_CONGR") != "" {
				fmt.Printf("%*scongr %s %d/%d: %v\n", depth*2, "", opNames[p.a.op], p.a.size, p.b.size, ok)
				if !ok && os.Getenv("VC_CONGR") == "2" {
					n := 0
					diffTerms(p.a, p.b, &n, map[[2]*Term]bool{})
				}
			}
			if ok {
				from, to := p.a, p.b
				if from.size < to.size {
					from, to = to, from
				}
				n := subst(c, map[*Term]*Term{from: to})
				if n != c {
					c = under(g, n)
					hit = true
					break
				}
			}
		}
		if !hit {
			return c
		}
	}
	return c
}

func refuted(c *Term) bool { return c == False }

// holds proves a small goal with the simplifier, case analysis, congruence and, last, the solver.
func (cg *congr) holds(g, c *Term, depth int) bool {
	for i := 0; i < 2; i++ {
		c = under(g, c)
	}
	if c == True || g == False {
		return true
	}
	if c == False {
		return false
	}
	leaves, done := caseSplit(g, c)
	if done && len(leaves) == 0 {
		return true
	}
	if depth < 3 {
		n := cg.rewrite(g, c, depth)
		if n == True {
			return true
		}
		if n != c {
			c = n
			leaves, done = caseSplit(g, c)
			if done && len(leaves) == 0 {
				return true
			}
		}
	}
	if cpuNow() > cg.deadline {
		return false
	}
	if os.Getenv("VC_CONGR") == "3" {
		fmt.Printf("  left: done=%v leaves=%d\n", done, len(leaves))
		if len(leaves) > 0 {
			base := map[*Term]bool{}
			for _, l := range conj(g) {
				base[l] = true
			}
			for i := range leaves {
				if i > 4 {
					break
				}
				fmt.Printf("   leaf %d\n", i)
				for _, l := range conj(leaves[i]) {
					if !base[l] {
						fmt.Printf("    [%d] %s\n", l.size, short(l.String(), 6000))
					}
				}
			}
		}
	}
	f := mkAnd(g, mkNot(c))
	if done && len(leaves) <= 12 {
		f2 := mkOr(leaves...)
		if f2.size < 3*f.size {
			f = f2
		}
	}
	fs := []*Term{skolem(f)}
	all := append(fs, expand(fs, 3, 400)...)
	ok := false
	func() {
		defer func() { recover() }()
		txt := newSMT(false).text(all, "(set-logic ALL)\n")
		ok = portfolio([]job{{"z3-euf", argvZ3n, txt}}, 2).verdict == "unsat"
	}()
	return ok
}
