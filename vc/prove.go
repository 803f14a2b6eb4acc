package main

import (
	"fmt"
	"os"
	"time"
)

type proofTask struct {
	o    *Oblig
	alt  *proofTask // the same obligation under the small hypotheses only
	ok   bool
	how  string
	t    float64
	euf  string
	nat  string
	natC string
	euf2 string
}

// useForall: what a hypothesis denies of every element of a range is false inside the loops over that range.
func useForall(guard, cond *Term) (*Term, *Term) {
	f := forallRewriter(guard)
	if f == nil {
		return guard, cond
	}
	var out []*Term
	for _, c := range conj(guard) {
		out = append(out, f(c))
	}
	return mkAnd(out...), f(cond)
}

func forallRewriter(guard *Term) func(*Term) *Term {
	type fact struct{ n, a *Term }
	var fs []fact
	cs := conj(guard)
	for _, c := range cs {
		if c.op == ONot && c.args[0].op == OEx && c.args[0].args[1].op == OLam && c.args[0].size < 60 {
			fs = append(fs, fact{c.args[0].args[0], c.args[0].args[1]})
		}
	}
	if len(fs) == 0 {
		return nil
	}
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op != OLam && len(t.args) > 0 {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rw(a)
				ch = ch || as[i] != a
			}
			if (t.op == OEx || t.op == OFirst) && len(as) == 2 && as[1].op == OLam {
				for _, f := range fs {
					if f.n != as[0] || f.a == as[1] {
						continue
					}
					freshN++
					k := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
					b := inst(as[1], k)
					if n := subst(b, map[*Term]*Term{inst(f.a, k): False}); n != b {
						as[1] = mkLam([]*Term{k}, n)
						ch = true
					}
				}
			}
			if ch {
				r = rebuild(t, as)
			}
		} else if t.op == OLam {
			ks := make([]*Term, len(t.bs))
			for i := range ks {
				freshN++
				ks[i] = mkVar(fmt.Sprintf("k!%d", freshN), t.bs[i])
			}
			b := inst(t, ks...)
			if n := rw(b); n != b {
				r = mkLam(ks, n)
			}
		}
		memo[t] = r
		return r
	}
	return rw
}

// simplification stage (single threaded: the term table is shared)
func (pt *proofTask) prepare() {
	pt.o.Guard, pt.o.Cond = useForall(pt.o.Guard, pt.o.Cond)
	var small []*Term
	cut := false
	for _, c := range conj(pt.o.Guard) {
		if c.size <= 250 {
			small = append(small, c)
		} else {
			cut = true
		}
	}
	if cut {
		pt.alt = &proofTask{o: &Oblig{Guard: mkAnd(small...), Cond: pt.o.Cond}}
		pt.alt.prepare1()
		if pt.alt.ok {
			pt.ok, pt.how, pt.t = true, pt.alt.how, pt.alt.t
			return
		}
	}
	pt.prepare1()
}

var congrBudget = 25 * time.Second

func (pt *proofTask) prepare1() {
	t0 := time.Now()
	defer func() { pt.t += time.Since(t0).Seconds() }()
	o := pt.o
	c := o.Cond
	for i := 0; i < 3; i++ {
		n := under(o.Guard, c)
		if n == True || o.Guard == False {
			pt.ok, pt.how = true, "simplifier"
			return
		}
		if n == c {
			break
		}
		c = n
	}
	if len(binders(c)) > 1 {
		cg := &congr{deadline: cpuNow() + congrBudget, tried: map[[2]*Term]bool{}}
		c = cg.rewrite(o.Guard, c, 0)
		c = under(o.Guard, c)
		if c == True {
			pt.ok, pt.how = true, "loop congruence"
			return
		}
	}
	neg := mkNot(c)
	f := mkAnd(o.Guard, neg)
	if f == False {
		pt.ok, pt.how = true, "simplifier"
		return
	}
	leaves, lcs, done := caseSplit2(o.Guard, c, diffAtom, 15*time.Second)
	if !done {
		if l, lc, ok := caseSplit2(o.Guard, c, splitAtom, 15*time.Second); ok {
			leaves, lcs, done = l, lc, ok
		}
	}
	if done && len(leaves) == 0 {
		pt.ok, pt.how = true, "simplifier (case split)"
		return
	}
	if done && len(binders(c)) > 1 {
		// loops that agree only under the conditions of a case
		cg := &congr{deadline: cpuNow() + congrBudget}
		var rest []*Term
		for i := range lcs {
			cg.tried = map[[2]*Term]bool{}
			g, l := lcs[i][0], lcs[i][1]
			n := cg.rewrite(g, l, 0)
			if n == True {
				continue
			}
			if n != l {
				if cg.holds(g, n, 2) {
					continue
				}
			}
			rest = append(rest, mkAnd(g, mkNot(n)))
		}
		leaves = rest
		if len(leaves) == 0 {
			pt.ok, pt.how = true, "loop congruence"
			return
		}
	}
	f = skolem(f)
	fs := []*Term{f}
	if done && len(leaves) <= 12 {
		for i := range leaves {
			leaves[i] = skolem(leaves[i])
		}
		f2 := mkOr(leaves...)
		if f2 == False {
			pt.ok, pt.how = true, "simplifier (case split)"
			return
		}
		if f2.size < 3*f.size {
			fs = []*Term{f2}
		}
	}
	ax := expand(fs, 3, 600)
	all := append(fs, ax...)
	func() {
		defer func() {
			if r := recover(); r != nil {
				pt.how = "encoding failed"
				if os.Getenv("VC_DEBUG") != "" {
					panic(r)
				}
			}
		}()
		pt.euf = newSMT(false).text(all, "(set-logic ALL)\n")
		pt.nat = newSMT(true).text(all, "(set-logic ALL)\n")
		if ax2 := expand(fs, 6, 2500); len(ax2) > len(ax) && len(ax) < 600 {
			pt.euf2 = newSMT(false).text(append(append([]*Term{}, fs...), ax2...), "(set-logic ALL)\n")
		}
	}()
	if os.Getenv("VC_DUMP") != "" {
		if pt.alt == nil {
			os.WriteFile(os.Getenv("VC_DUMP")+".alt.smt2", []byte(pt.euf), 0644)
		}
		os.WriteFile(os.Getenv("VC_DUMP")+".euf.smt2", []byte(pt.euf), 0644)
		os.WriteFile(os.Getenv("VC_DUMP")+".euf2.smt2", []byte(pt.euf2), 0644)
		os.WriteFile(os.Getenv("VC_DUMP")+".nat.smt2", []byte(pt.nat), 0644)
	}
}

func (pt *proofTask) solve(sec int) {
	if pt.ok || pt.euf == "" {
		return
	}
	t0 := time.Now()
	defer func() { pt.t += time.Since(t0).Seconds() }()
	if pt.alt != nil && pt.alt.euf != "" {
		for _, q := range []string{pt.alt.euf, pt.alt.euf2} {
			if q != "" && portfolio([]job{{"z3-euf", argvZ3n, q}}, 4).verdict == "unsat" {
				pt.ok, pt.how = true, "z3-new (uninterpreted strings)"
				return
			}
		}
	}
	r := portfolio([]job{{"z3-euf", argvZ3n, pt.euf}}, 3)
	if r.verdict == "unsat" {
		pt.ok, pt.how = true, "z3-new (uninterpreted strings)"
		return
	}
	if pt.euf2 != "" {
		r = portfolio([]job{{"z3-euf", argvZ3n, pt.euf2}}, 5)
		if r.verdict == "unsat" {
			pt.ok, pt.how = true, "z3-new (uninterpreted strings)"
			return
		}
	}
	r = portfolio([]job{{"z3-new", argvZ3n, pt.nat}, {"z3", argvZ3, pt.nat}, {"cvc5", argvCvc, pt.nat}}, sec)
	if r.verdict == "unsat" {
		pt.ok, pt.how = true, r.by
		return
	}
	pt.how = r.verdict
}

func proveObl(o *Oblig) (bool, string) {
	pt := &proofTask{o: o}
	pt.prepare()
	pt.solve(10)
	return pt.ok, pt.how
}

// caseSplit branches on the conditions of the alternatives in a goal until every branch is decided. It returns the
// negations of the branches that are left open, and whether the tree was explored completely.
func caseSplit(g, c *Term) (open []*Term, done bool) {
	open, _, done = caseSplit2(g, c, diffAtom, 8*time.Second)
	return
}

func caseSplit2(g, c *Term, pick func(*Term) *Term, limit time.Duration) (open []*Term, gc [][2]*Term, done bool) {
	budget := 60000
	deadline := cpuNow() + limit
	g0 := g
	alone := map[*Term]bool{} // goals that were tried under g0 alone
	var rec func(g, c *Term, d int) bool
	rec = func(g, c *Term, d int) bool {
		for i := 0; i < 2; i++ {
			n := under(g, c)
			if n == c {
				break
			}
			c = n
		}
		if c == True || g == False {
			return true
		}
		budget--
		if budget < 0 || d > 60 || cpuNow() > deadline || len(open) > 40 {
			return false
		}
		if d > 0 && g != g0 {
			// what is left of an equation after its first parts agreed often no longer depends on the earlier cases
			ok, tried := alone[c]
			if ok {
				return true
			}
			if !tried {
				alone[c] = false
				no := len(open)
				if rec(g0, c, d+1) && len(open) == no {
					alone[c] = true
					return true
				}
				open, gc = open[:no], gc[:no]
			}
		}
		a := pick(c)
		if a == nil {
			open = append(open, mkAnd(g, mkNot(c)))
			gc = append(gc, [2]*Term{g, c})
			return true
		}
		return rec(with(g, a), c, d+1) && rec(with(g, mkNot(a)), c, d+1)
	}
	done = rec(g, c, 0)
	if os.Getenv("VC_CONGR") != "" && !done {
		println("   split stopped: budget", budget, "time left", int((deadline-cpuNow()).Seconds()*1000), "open", len(open), "size", c.size)
	}
	return
}

// with adds a literal to a conjunction and propagates it.
func with(g, a *Term) *Term {
	for i := 0; i < 3; i++ {
		var cs []*Term
		var lits []*Term
		for _, x := range conj(g) {
			if x.size < 3000 && (x.op == OOr || x.op == OIte || x.op == OAnd || x == a) {
				y := x
				if x != a {
					y = under(a, x)
				}
				if y != x {
					for _, l := range conj(y) {
						if isLiteral(l) {
							lits = append(lits, l)
						}
					}
				}
				cs = append(cs, y)
			} else {
				cs = append(cs, x)
			}
		}
		cs = append(cs, a)
		g = mkAnd(cs...)
		if len(lits) == 0 || g == False {
			return g
		}
		a = mkAnd(lits...)
	}
	return g
}

// splitAtom is the condition of the first alternative outside quantified positions.
func splitAtom(c *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t] || t.op == OLam {
			return nil
		}
		seen[t] = true
		if t.op == OIte && t.args[0].loose == 0 {
			a := t.args[0]
			for a.op == ONot || a.op == OAnd || a.op == OOr || a.op == OIte {
				a = a.args[0]
			}
			if a.loose == 0 {
				return a
			}
		}
		for _, x := range t.args {
			if r := rec(x); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(c)
}

// diffAtom is the condition of the first alternative where the sides of an equation differ, or else splitAtom.
func diffAtom(c *Term) *Term {
	var atom func(t *Term) *Term
	atom = func(t *Term) *Term {
		for t.op == ONot || t.op == OAnd || t.op == OOr || t.op == OIte {
			t = t.args[0]
		}
		if t.loose != 0 || t.isConst() {
			return nil
		}
		return t
	}
	var diff func(a, b *Term) *Term
	diff = func(a, b *Term) *Term {
		for _, t := range []*Term{a, b} {
			if t.op == OIte && t.args[0].loose == 0 {
				if x := atom(t.args[0]); x != nil {
					return x
				}
			}
		}
		if a.op == OLam || b.op == OLam || a.op != b.op {
			for _, t := range []*Term{a, b} {
				if len(t.args) > 0 && t.op != OLam {
					if x := splitAtom(t); x != nil {
						return x
					}
				}
			}
			return nil
		}
		for i := range a.args {
			if i >= len(b.args) {
				break
			}
			if a.args[i] != b.args[i] {
				if x := diff(a.args[i], b.args[i]); x != nil {
					return x
				}
			}
		}
		return nil
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OEq && len(t.args) == 2 && t.loose == 0 {
			return diff(t.args[0], t.args[1])
		}
		if t.op == OAnd || t.op == OOr || t.op == ONot {
			for _, x := range t.args {
				if r := rec(x); r != nil {
					return r
				}
			}
		}
		return nil
	}
	if a := rec(c); a != nil {
		return a
	}
	return splitAtom(c)
}

// skolem names the witness of the existential loops that hold in f.
func skolem(f *Term) *Term {
	for depth := 0; depth < 4; depth++ {
		var cs []*Term
		any := false
		for _, c := range conj(f) {
			if c.op == OEx && c.loose == 0 {
				freshN++
				k := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
				cs = append(cs, mkLt(k, c.args[0]), inst(c.args[1], k))
				any = true
				continue
			}
			cs = append(cs, c)
		}
		if !any {
			break
		}
		f = mkAnd(cs...)
	}
	return f
}
