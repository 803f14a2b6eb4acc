// Lockstep loops: the n-th loop of the code and the n-th loop of the contract are cut together. Both bodies run once
// from one unconstrained common state (the relational invariant "the two states are equal"); the equality is established
// on entry, preserved by one iteration of both, and both go on behind the loop from the common state.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lockRun struct {
	fn    *ssa.Function // the contract function
	phase int           // 0: contract, 1: code
	in    int           // inside a cut body
	n     int
	loops []*lockLoop
	mods  []map[string]bool
	ind   map[string]int64 // phis that count: "phase.loop.phi" -> step
	again bool
	pairs map[*Term]*Term // allocations of the two sides that correspond
	clash bool
	cmp   bool
	cells map[string]bool // local objects that a loop changes: "phase.loop.ref"
	acc   map[string]bool // lists that only grow, from different beginnings on the two sides: "loop.register of the contract"
	noacc map[string]bool
	nils  map[string]bool // slice registers that can be nil after an iteration: "phase.loop.phi"
}

type lockPhi struct {
	name            string
	t               types.Type
	sym, init, back *Term
	nonce           int
	cell            *Term // a local object, not a register
	grown           *Term // what was appended so far, for a list that only grows
}

// accumulate: the register of each side is its own beginning followed by what both sides appended.
func (L *lockRun) accumulate(n int, x *lockPhi) bool {
	if x.nonce < 0 || x.init.sort.K != SSlice || !L.acc[fmt.Sprintf("%d.%d", n, x.nonce)] {
		return false
	}
	s := mkSlSeq(x.init)
	x.grown = mkVar(fmt.Sprintf("lk%d.%d[]grown", n, x.nonce), s.sort)
	x.sym = mkSl(mkAnd(mkSlNil(x.init), mkEq(x.grown, mkEmpty(s.sort))), mkConcat(s.sort, s, x.grown))
	return true
}

// appended is what follows the prefix p in the sequence t, nil if t does not visibly begin with p.
func appended(p, t *Term) *Term {
	if p == t {
		return mkEmpty(t.sort)
	}
	if t.op == OIte {
		a, b := appended(p, t.args[1]), appended(p, t.args[2])
		if a == nil || b == nil {
			return nil
		}
		return mkIte(t.args[0], a, b)
	}
	parts := func(x *Term) []*Term {
		switch x.op {
		case OEmpty:
			return nil
		case OConcat:
			return x.args
		}
		return []*Term{x}
	}
	a, b := parts(p), parts(t)
	if len(a) > len(b) {
		return nil
	}
	for i := range a {
		if a[i] != b[i] {
			return nil
		}
	}
	return mkConcat(t.sort, b[len(a):]...)
}

type lockSide struct {
	entry, entryC *State // as reached, and with the common state
	back          *State
	phis          []*lockPhi
	dom           *Term
	keeps         []*Term
	reach         map[*Term]bool
}

type lockLoop struct{ side [2]*lockSide }

func (e *Exec) locking(f *frame) bool {
	L := e.lock
	if L == nil || L.in > 0 || len(e.iters) > 0 || e.lemmaMode > 0 {
		return false
	}
	if L.phase == 0 {
		return f.fn == L.fn
	}
	return e.spec == 0
}

func lockSym(name string, s *Sort, side int) *Term {
	if s.K == SSlice {
		return mkSl(mkVar(fmt.Sprintf("%s?%d", name, side), BoolS), mkVar(name+"[]", mkSlSeq(mkVar(name, s)).sort))
	}
	return mkVar(name, s)
}

func (e *Exec) lockLoop(f *frame, l *loopInfo) []exitEdge {
	L := e.lock
	h := l.header
	st0 := e.enter(f, h)
	if st0 == nil {
		return nil
	}
	n := L.n
	L.n++
	for len(L.mods) <= n {
		L.mods = append(L.mods, map[string]bool{})
	}
	for len(L.loops) <= n {
		L.loops = append(L.loops, &lockLoop{})
	}
	side := &lockSide{dom: False}
	L.loops[n].side[L.phase] = side
	mods := L.mods[n]
	k := mkVar(fmt.Sprintf("lk%d.k", n), IntS)
	side.entry = st0.clone()
	st := st0.clone()
	st.guard = mkAnd(st.guard, mkLe(mkInt(0), k))
	var names []string
	for T := range mods {
		names = append(names, T)
	}
	sort.Strings(names)
	for _, T := range names {
		if T == "#trace" {
			st.trace = mkVar(fmt.Sprintf("lk%d.trace", n), SeqOf(IfaceS))
			continue
		}
		st.heap[T] = mkVar(fmt.Sprintf("lk%d.H:%s", n, T), e.heapAt(st0, T, nil).sort)
	}
	// values carried by registers
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	used := map[*lockPhi]bool{}
	for i, p := range phis {
		v := f.env[p]
		if c, ok := v.(*CellSl); ok {
			v = e.term(st0, c)
		}
		if a, ok := v.(*Addr); ok && len(a.path) > 0 {
			v = e.term(st0, a)
		}
		t, ok := v.(*Term)
		if !ok {
			side.phis = append(side.phis, &lockPhi{})
			continue // checked below: it must not change
		}
		x := &lockPhi{name: p.Comment, t: p.Type(), init: t}
		side.phis = append(side.phis, x)
		key := fmt.Sprintf("%d.%d.%d", L.phase, n, i)
		if c, ok := L.ind[key]; ok {
			x.sym = mkAdd(t, mkMul(mkInt(c), k))
			x.nonce = -1
			f.env[p] = x.sym
			continue
		}
		x.nonce = i
		x.sym = lockSym(fmt.Sprintf("lk%d.%d", n, i), t.sort, L.phase)
		if L.phase == 1 {
			x.nonce = -2
			x.sym = lockSym(fmt.Sprintf("lk%d.code%d", n, i), t.sort, L.phase)
			if m := L.match(n, x, used); m != nil {
				x.nonce = m.nonce
				used[m] = true
				x.sym = lockSym(fmt.Sprintf("lk%d.%d", n, m.nonce), t.sort, L.phase)
			}
		}
		if L.accumulate(n, x) {
			f.env[p] = x.sym
			continue
		}
		if t.sort.K == SSlice && mkSlNil(t) == False && !L.nils[key] {
			// never nil: established on entry, and checked after the iteration below
			x.sym = mkSl(False, mkSlSeq(x.sym))
		}
		f.env[p] = x.sym
	}
	// local objects that the loop changes
	var crefs []*Term
	for c := range st0.cells {
		if L.cells[fmt.Sprintf("%d.%d.%s", L.phase, n, c)] {
			crefs = append(crefs, c)
		}
	}
	sort.Slice(crefs, func(i, j int) bool { return crefs[i].ival.Cmp(crefs[j].ival) > 0 })
	for j, c := range crefs {
		i := len(phis) + j
		x := &lockPhi{name: e.cellName[c], t: e.cellT[c], init: st0.cells[c], cell: c, nonce: i}
		x.sym = lockSym(fmt.Sprintf("lk%d.%d", n, i), x.init.sort, L.phase)
		if L.phase == 1 {
			x.nonce = -2
			x.sym = lockSym(fmt.Sprintf("lk%d.code%d", n, i), x.init.sort, L.phase)
			if m := L.match(n, x, used); m != nil {
				x.nonce = m.nonce
				used[m] = true
				x.sym = lockSym(fmt.Sprintf("lk%d.%d", n, m.nonce), x.init.sort, L.phase)
			}
		}
		st.cells[c] = x.sym
		side.phis = append(side.phis, x)
	}
	// an object of this activation must not be among those that the common state stands for
	seen := map[*Term]bool{}
	bad := false
	chk := func(t *Term) {
		walk(t, seen, func(x *Term) {
			if x.op == OFresh || x.op == OInt && x.ival.Sign() < 0 && e.cellT[x] != nil {
				bad = true
			}
		})
	}
	for _, x := range side.phis {
		if x.init != nil {
			chk(x.init)
		}
	}
	for _, T := range names {
		if T != "#trace" {
			chk(e.heapAt(st0, T, nil))
		}
	}
	if bad {
		e.unsup("lockstep: an object allocated before the loop takes part in it")
	}
	side.entryC = st.clone()
	entry := st.clone()
	nx := len(e.exits)
	L.in++
	backs, exits := e.runRegion(f, l, h, st)
	L.in--
	e.lost++
	for _, x := range exits {
		side.dom = mkOr(side.dom, x.st.guard)
	}
	for _, x := range e.exits[nx:] {
		side.dom = mkOr(side.dom, x.guard)
	}
	var nb []*edgeIn
	for _, b := range backs {
		b.used = true
		if b.st.guard != False {
			nb = append(nb, b)
		}
	}
	backs = nb
	if len(backs) == 0 {
		side.back = &State{guard: False, heap: map[string]*Term{}, cells: map[*Term]*Term{}}
		return exits
	}
	sts := make([]*State, len(backs))
	for i, b := range backs {
		sts[i] = b.st
		side.dom = mkOr(side.dom, b.st.guard)
	}
	sb, rest := e.mergeStates(sts)
	for i, p := range phis {
		x := side.phis[i]
		vs := make([]Val, len(backs))
		for j, b := range backs {
			vs[j] = e.val(f, b.st, p.Edges[e.predIdx(h, b.pred)])
			if x.sym != nil {
				vs[j] = e.term(b.st, vs[j])
			}
		}
		v := e.mergeVals(sts, rest, vs)
		if x.sym == nil {
			if !valEq(f.env[p], v) {
				e.unsup("lockstep: loop-carried value of unsupported kind %T", v)
			}
			continue
		}
		x.back = e.term(sb, v)
		if key := fmt.Sprintf("%d.%d.%d", L.phase, n, i); x.grown == nil && x.back.sort.K == SSlice && mkSlNil(x.sym) == False && mkSlNil(x.back) != False {
			L.nils[key] = true
			L.again = true
		}
		if x.nonce == -1 {
			c := L.ind[fmt.Sprintf("%d.%d.%d", L.phase, n, i)]
			if x.back != mkAdd(x.sym, mkInt(c)) {
				e.unsup("lockstep: counter does not count")
			}
			continue
		}
		if x.sym.sort == IntS {
			if d := mkSubI(x.back, x.sym); d.op == OInt && d.ival.IsInt64() {
				if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					L.ind[fmt.Sprintf("%d.%d.%d", L.phase, n, i)] = d.ival.Int64()
					L.again = true
				}
			}
		}
	}
	for _, b := range backs {
		for c, v := range b.st.cells {
			if _, ok := sb.cells[c]; !ok {
				sb.cells[c] = v
			}
		}
	}
	for T, v := range sb.heap {
		ent, ok := entry.heap[T]
		if !ok {
			ent = mkVar("H0:"+T, v.sort)
		}
		if v != ent && !mods[T] {
			mods[T] = true
			L.again = true
		}
	}
	// objects that survive the iteration live in the common state from then on
	reach := map[*Term]bool{}
	seen = map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		walk(t, seen, func(x *Term) {
			if x.op == OInt && x.ival.Sign() < 0 && e.cellT[x] != nil && !reach[x] {
				reach[x] = true
				if v, ok := sb.cells[x]; ok {
					visit(v)
				}
			}
		})
	}
	for _, x := range side.phis[len(phis):] {
		x.back = sb.cells[x.cell]
	}
	for _, x := range side.phis {
		if x.back != nil {
			visit(x.back)
		}
	}
	for T, v := range sb.heap {
		if mods[T] {
			visit(v)
		}
	}
	for c := range reach {
		T := tname(e.cellT[c])
		if _, isMap := e.cellT[c].Underlying().(*types.Map); isMap {
			T = "map:" + tname(e.cellT[c].Underlying())
		}
		if !mods[T] {
			mods[T] = true
			L.again = true
		}
	}
	for c, v := range entry.cells {
		nv := sb.cells[c]
		if nv == nil || nv == v {
			continue
		}
		if key := fmt.Sprintf("%d.%d.%s", L.phase, n, c); !L.cells[key] {
			if c.op != OInt || nv.sort != v.sort {
				e.unsup("lockstep: a local object changes in the loop")
			}
			L.cells[key] = true
			L.again = true
		}
	}
	for c := range reach {
		if entry.cells[c] != nil && !e.isGlobalRef(c) {
			e.unsup("lockstep: an object allocated before the loop takes part in it")
		}
	}
	if sb.trace != entry.trace && !mods["#trace"] {
		mods["#trace"] = true
		L.again = true
	}
	side.back, side.reach = sb, reach
	return exits
}

// match finds the register of the contract's loop that corresponds to x.
func (L *lockRun) match(n int, x *lockPhi, used map[*lockPhi]bool) *lockPhi {
	s := L.loops[n].side[0]
	if s == nil {
		return nil
	}
	var c []*lockPhi
	for _, y := range s.phis {
		if y.sym != nil && y.nonce >= 0 && !used[y] && types.Identical(x.t, y.t) {
			c = append(c, y)
		}
	}
	if len(c) == 0 {
		return nil
	}
	for _, y := range c {
		if y.name == x.name {
			return y
		}
	}
	for _, y := range c {
		if y.init == x.init {
			return y
		}
	}
	return c[0]
}

// lockObligations relates the two sides of every cut.
func (e *Exec) lockObligations(c *Contract) {
	L := e.lock
	e.hbase = map[string]*Term{}
	for n, lp := range L.loops {
		a, b := lp.side[1], lp.side[0]
		if a == nil || b == nil {
			e.unsup("lockstep: the loops of the code and of the contract do not correspond")
		}
		nm := fmt.Sprintf("loop %d: ", n+1)
		g0 := &State{guard: b.entry.guard}
		from := len(e.obl)
		e.oblige("ensures", nm+"entered together", &State{guard: True}, mkEq(a.entry.guard, b.entry.guard), c.Fn.Pos())
		L.cmp = true
		L.pairs = map[*Term]*Term{}
		e.lockEq(true, nm+"on entry: ", n, a, b, a.entry, b.entry, g0.guard, func(x *lockPhi) *Term { return x.init }, c)
		e.oblige("ensures", nm+"continues when the contract's loop does", &State{guard: mkAnd(a.entry.guard, b.dom)}, mkEq(a.back.guard, b.back.guard), c.Fn.Pos())
		e.lockKeeps(nm+"on entry: ", n, b, false, c)
		if b.back.guard != False {
			e.lockKeeps(nm+"after one iteration: ", n, b, true, c)
		}
		if a.back.guard != False && b.back.guard != False {
			L.pairs = map[*Term]*Term{}
			for T := range L.mods[n] {
				if v := b.entryC.heap[T]; v != nil {
					e.hbase[T] = v
				}
			}
			e.lockEq(false, nm+"one iteration: ", n, a, b, a.back, b.back, mkAnd(a.back.guard, b.back.guard), func(x *lockPhi) *Term { return x.back }, c)
		}
		e.splitByTag(from)
		L.cmp = false
		if L.clash {
			e.unsup("lockstep: the objects that the two sides allocate do not correspond one to one")
		}
	}
	e.hbase = nil
}

func (e *Exec) lockEq(entry bool, nm string, n int, a, b *lockSide, sa, sb *State, g *Term, val func(*lockPhi) *Term, c *Contract) {
	best, vals := switchTag([]*Term{sa.guard, sb.guard})
	if best == nil {
		e.lockEq1(entry, nm, n, a, b, sa, sb, g, val, c)
		return
	}
	other := True
	for i := 0; i <= len(vals); i++ {
		k := other
		what := "[other statement] "
		if i < len(vals) {
			k = mkEq(best, vals[i])
			other = mkAnd(other, mkNot(k))
			what = fmt.Sprintf("[statement kind %d] ", i+1)
		}
		gk := mkAnd(k, under(k, g))
		if gk == False {
			continue
		}
		fa := forallRewriter(gk)
		if fa == nil {
			fa = func(t *Term) *Term { return t }
		}
		st := func(s *State) *State {
			r := s.clone()
			for T, h := range r.heap {
				r.heap[T] = under(gk, fa(under(k, h)))
			}
			for x, v := range r.cells {
				r.cells[x] = under(gk, under(k, v))
			}
			if r.trace != nil {
				r.trace = under(gk, under(k, r.trace))
			}
			return r
		}
		e.lock.pairs = map[*Term]*Term{}
		e.lockEq1(entry, nm+what, n, a, b, st(sa), st(sb), gk, func(x *lockPhi) *Term { return under(gk, fa(under(k, val(x)))) }, c)
	}
}

func (e *Exec) lockEq1(entry bool, nm string, n int, a, b *lockSide, sa, sb *State, g *Term, val func(*lockPhi) *Term, c *Contract) {
	for _, x := range a.phis {
		if x.sym == nil || x.nonce < 0 {
			continue
		}
		for _, y := range b.phis {
			if y.sym == nil || y.nonce != x.nonce {
				continue
			}
			tx, ty := val(x), val(y)
			var cond *Term
			key := fmt.Sprintf("%d.%d", n, x.nonce)
			grew := func(z *lockPhi) *Term {
				if z.back == nil || z.sym == nil {
					return nil
				}
				return appended(mkSlSeq(z.sym), mkSlSeq(z.back))
			}
			if x.grown != nil && y.grown != nil {
				if entry {
					continue
				}
				gx, gy := appended(mkSlSeq(x.sym), mkSlSeq(tx)), appended(mkSlSeq(y.sym), mkSlSeq(ty))
				if gx == nil || gy == nil {
					gx, gy = grew(x), grew(y)
				}
				if gx == nil || gy == nil {
					e.lock.noacc[key], e.lock.again = true, true
					delete(e.lock.acc, key)
					continue
				}
				tx, ty = mkSl(False, gx), mkSl(False, gy)
			} else if sl, ok := x.t.Underlying().(*types.Slice); ok && entry && tx != ty && x.cell == nil && y.cell == nil && !e.lock.noacc[key] && mkEq(mkSlSeq(tx), mkSlSeq(ty)) != True && isFlat(sl.Elem()) && grew(x) != nil && grew(y) != nil {
				e.lock.acc[key], e.lock.again = true, true
			}
			if mt, ok := x.t.Underlying().(*types.Map); ok && x.cell != nil {
				cond = e.mapEq(sa, sb, tx, ty, mt)
			} else if sl, ok := x.t.Underlying().(*types.Slice); ok {
				cond = e.deepEqSeq(sa, sb, mkSlSeq(tx), mkSlSeq(ty), sl.Elem(), 0)
			} else {
				cond = e.deepEq(sa, sb, tx, ty, x.t, 0)
			}
			e.oblige("ensures", nm+"same "+x.name, &State{guard: g}, cond, c.Fn.Pos())
		}
	}
	e.compareOnly(sa, sb, g, nm, e.lock.mods[n])
}

// mapEq: the contents of two maps.
func (e *Exec) mapEq(sa, sb *State, a, b *Term, mt *types.Map) *Term {
	switch {
	case a.op == OIte:
		return iteUnder(a.args[0], e.mapEq(sa, sb, a.args[1], under(a.args[0], b), mt), e.mapEq(sa, sb, a.args[2], under(mkNot(a.args[0]), b), mt))
	case b.op == OIte:
		return iteUnder(b.args[0], e.mapEq(sa, sb, under(b.args[0], a), b.args[1], mt), e.mapEq(sa, sb, under(mkNot(b.args[0]), a), b.args[2], mt))
	case a.op == OApp && b.op == OApp && a.name == "map:put" && b.name == "map:put":
		return mkAnd(mkEq(a.args[1], b.args[1]), e.deepEq(sa, sb, a.args[2], b.args[2], mt.Elem(), 0), e.mapEq(sa, sb, a.args[0], b.args[0], mt))
	}
	return mkEq(a, b)
}

func (e *Exec) compareOnly(a, b *State, g *Term, nm string, keys map[string]bool) {
	x := &State{guard: a.guard, heap: map[string]*Term{}, cells: a.cells}
	y := &State{guard: b.guard, heap: map[string]*Term{}, cells: b.cells}
	for T := range keys {
		if T != "#trace" {
			x.heap[T], y.heap[T] = e.heapAt(a, T, nil), e.heapAt(b, T, nil)
		} else {
			x.trace, y.trace = a.trace, b.trace
		}
	}
	for T, h := range a.heap {
		if x.heap[T] == nil {
			x.heap[T] = h
		}
	}
	for T, h := range b.heap {
		if y.heap[T] == nil {
			y.heap[T] = h
		}
	}
	e.compareStatesKeys(x, y, g, nm, nil, keys)
}

// pair: two references stand for the same object in a cut's common state. Old objects are themselves; an object that one
// side allocates corresponds to exactly one object that the other side allocates, with corresponding contents.
func (e *Exec) pair(sa, sb *State, a, b *Term, t types.Type, depth int) *Term {
	L := e.lock
	if !hasFresh(a) && !hasFresh(b) {
		return mkEq(a, b)
	}
	if a.op == OIte {
		return iteUnder(a.args[0], e.pair(sa, sb, a.args[1], under(a.args[0], b), t, depth), e.pair(sa, sb, a.args[2], under(mkNot(a.args[0]), b), t, depth))
	}
	if b.op == OIte {
		return iteUnder(b.args[0], e.pair(sa, sb, under(b.args[0], a), b.args[1], t, depth), e.pair(sa, sb, under(mkNot(b.args[0]), a), b.args[2], t, depth))
	}
	fresh := func(t *Term) bool { return t.op == OFresh || t.op == OInt && t.ival.Sign() < 0 }
	if !fresh(a) || !fresh(b) {
		return False
	}
	if x, ok := L.pairs[a]; ok && x != b {
		L.clash = true
	}
	for p, q := range L.pairs {
		if q == b && p != a {
			L.clash = true
		}
	}
	L.pairs[a] = b
	return e.deepEq(sa, sb, e.objLoad(sa, a, t), e.objLoad(sb, b, t), t, depth+1)
}

// switchTag finds the value whose dynamic type a body switches on, and the types it asks for.
func switchTag(ts []*Term) (*Term, []*Term) {
	count := map[*Term]int{}
	tags := map[*Term]map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		walk(t, seen, func(x *Term) {
			if x.op == OEq && x.args[0].op == OTag && x.args[1].op == OInt {
				count[x.args[0]]++
				if tags[x.args[0]] == nil {
					tags[x.args[0]] = map[*Term]bool{}
				}
				tags[x.args[0]][x.args[1]] = true
			}
		})
	}
	var best *Term
	for t := range count {
		if len(tags[t]) > 2 && t.loose == 0 && (best == nil || len(tags[t]) > len(tags[best]) || len(tags[t]) == len(tags[best]) && t.id < best.id) {
			best = t
		}
	}
	if best == nil {
		return nil, nil
	}
	return best, sortedTerms(tags[best])
}

// splitByTag proves the obligations of a cut once per dynamic type of the value that the body switches on.
func (e *Exec) splitByTag(from int) {
	var ts []*Term
	for _, o := range e.obl[from:] {
		ts = append(ts, o.Guard, o.Cond)
	}
	best, vals := switchTag(ts)
	if best == nil {
		return
	}
	obl := append([]*Oblig{}, e.obl[from:]...)
	e.obl = e.obl[:from]
	for _, o := range obl {
		uses := strings.Contains(o.Name, " statement")
		if uses || strings.Contains(o.Name, "statement kind") {
			e.obl = append(e.obl, o)
			continue
		}
		walk(o.Cond, map[*Term]bool{}, func(x *Term) { uses = uses || x == best })
		walk(o.Guard, map[*Term]bool{}, func(x *Term) { uses = uses || x == best })
		if !uses || o.Cond == True {
			e.obl = append(e.obl, o)
			continue
		}
		other := True
		for i := 0; i <= len(vals); i++ {
			q := *o
			g := other
			if i < len(vals) {
				g = mkEq(best, vals[i])
				other = mkAnd(other, mkNot(g))
				q.Name += fmt.Sprintf(" [statement kind %d]", i+1)
			} else {
				q.Name += " [other statement]"
			}
			q.Guard = mkAnd(g, under(g, o.Guard))
			q.Cond = under(q.Guard, under(g, o.Cond))
			if q.Guard != False {
				e.obl = append(e.obl, &q)
			}
		}
	}
}

// lockKeeps establishes the stated invariants of a cut.
func (e *Exec) lockKeeps(nm string, n int, s *lockSide, back bool, c *Contract) {
	L := e.lock
	at := s.entry
	k := mkVar(fmt.Sprintf("lk%d.k", n), IntS)
	m := map[*Term]*Term{k: mkInt(0)}
	if back {
		at = s.back
		m[k] = mkAdd(k, mkInt(1))
	}
	for _, x := range s.phis {
		if x.sym == nil || x.nonce == -1 {
			continue
		}
		v := x.init
		if back {
			v = x.back
		}
		if x.sym.op == OMkSl {
			m[x.sym.args[0]], m[x.sym.args[1]] = mkSlNil(v), mkSlSeq(v)
		} else {
			m[x.sym] = v
		}
	}
	for T := range L.mods[n] {
		if T == "#trace" {
			m[s.entryC.trace] = e.traceOf(at)
			continue
		}
		h := e.heapAt(at, T, nil)
		if back {
			for _, r := range sortedTerms(s.reach) {
				if tname(e.cellT[r]) == T && at.cells[r] != nil {
					h = mkStore(h, r, at.cells[r])
				}
			}
		}
		m[s.entryC.heap[T]] = h
	}
	for _, q := range s.keeps {
		e.oblige("ensures", nm+"invariant", &State{guard: at.guard}, subst(q, m), c.Fn.Pos())
	}
}

var _ = token.NoPos

// isGlobalRef: objects reachable from constant globals.
func (e *Exec) isGlobalRef(c *Term) bool {
	x := new(big.Int).Neg(c.ival)
	return x.Cmp(big.NewInt(1<<40)) >= 0 && x.Cmp(big.NewInt(1<<49)) < 0
}

// isFlat: values that refer to nothing.
func isFlat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer
}
