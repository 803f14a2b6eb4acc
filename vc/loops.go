// Loops: summarised by closed forms (no unrolling, no hand-written invariant): each loop-carried location is a leaf;
// leaves with recognisable recurrences get closed forms over the iteration counter, the others a joint iterator term.
package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leafTree struct {
	sym  *Term
	kids []*leafTree
	leaf *leaf
}
type leaf struct {
	sym    *Term
	init   *Term
	back   *Term
	closed *Term
	what   string
}

// split builds a symbolic value of the given sort made of leaf variables.
func (lp *loopRun) split(init *Term, what string, depth int) *Term {
	s := init.sort
	switch {
	case s.K == SStruct && depth < 3 && len(s.Fields) <= 64 && len(s.Fields) > 0:
		as := make([]*Term, len(s.Fields))
		for i := range as {
			as[i] = lp.split(mkSel(init, i), what+"."+s.FNames[i], depth+1)
		}
		return mkMk(s, as...)
	case s.K == SSlice:
		return mkSl(lp.split(mkSlNil(init), what+"?", depth+1), lp.split(mkSlSeq(init), what+"[]", depth+1))
	}
	freshN++
	v := mkVar(fmt.Sprintf("~%s!%d", what, freshN), s)
	lp.leaves = append(lp.leaves, &leaf{sym: v, init: init, what: what})
	return v
}

// setBack distributes a back-edge value over the leaves of sym.
func (lp *loopRun) setBack(sym, v *Term) {
	if sym.op == OVar {
		for _, l := range lp.leaves {
			if l.sym == sym {
				l.back = v
				return
			}
		}
		panic("setBack")
	}
	switch sym.op {
	case OMk:
		for i, a := range sym.args {
			lp.setBack(a, mkSel(v, i))
		}
	case OMkSl:
		lp.setBack(sym.args[0], mkSlNil(v))
		lp.setBack(sym.args[1], mkSlSeq(v))
	default:
		panic("setBack " + sym.String())
	}
}

type objMod struct {
	ref *Term
}

type loopMods struct {
	heapObj map[string][]*Term // heap type -> loop-invariant references written
	heapAll map[string]bool
	cells   map[*Term]bool
	trace   bool
}

type loopRun struct {
	leaves []*leaf
}

type snap struct {
	nobl, nexits int
	nref         int64
	nreq         int
}

func (e *Exec) takeSnap() snap { return snap{len(e.obl), len(e.exits), e.nref, len(e.reqs)} }
func (e *Exec) rollback(s snap) {
	for _, o := range e.obl[s.nobl:] {
		delete(e.oblSeen, [2]*Term{o.Guard, o.Cond})
	}
	e.obl = e.obl[:s.nobl]
	e.exits = e.exits[:s.nexits]
	e.reqs = e.reqs[:s.nreq]
	for r := s.nref + 1; r <= e.nref; r++ {
		delete(e.cellT, mkInt(-r))
	}
	e.nref = s.nref
}

func (e *Exec) predIdx(b *ssa.BasicBlock, pred *ssa.BasicBlock) int {
	for j, p := range b.Preds {
		if p == pred {
			return j
		}
	}
	return -1
}

var loopHints = map[*ssa.BasicBlock]map[string]bool{}

func (e *Exec) runLoop(f *frame, l *loopInfo) []exitEdge {
	if e.locking(f) {
		return e.lockLoop(f, l)
	}
	if e.safe != nil && e.spec == 0 {
		return e.safeLoop(f, l)
	}
	h := l.header
	st0 := e.enter(f, h)
	if st0 == nil {
		return nil
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	phiInit := make([]Val, len(phis))
	for i, p := range phis {
		v := f.env[p]
		if c, ok := v.(*CellSl); ok {
			v = e.term(st0, c)
		}
		if a, ok := v.(*Addr); ok && len(a.path) > 0 {
			v = e.term(st0, a)
		}
		phiInit[i] = v
	}
	mods := &loopMods{heapObj: map[string][]*Term{}, heapAll: map[string]bool{}, cells: map[*Term]bool{}}
	freshN++
	k := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
	base := e.takeSnap()
	for round := 0; ; round++ {
		if round > 12 {
			e.unsup("loop modification analysis does not converge")
		}
		e.rollback(base)
		exs, again := e.loopAttempt(f, l, st0, phis, phiInit, mods, k, base)
		if !again {
			return exs
		}
	}
}

func heapRefs(h *Term, seen map[*Term]bool, out *[]*Term, stop *Term) bool {
	if h == stop || seen[h] {
		return true
	}
	seen[h] = true
	switch h.op {
	case OStore:
		found := false
		for _, r := range *out {
			if r == h.args[1] {
				found = true
			}
		}
		if !heapRefs(h.args[0], seen, out, stop) {
			return false
		}
		if !found {
			*out = append(*out, h.args[1])
		}
		return true
	case OIte:
		return heapRefs(h.args[1], seen, out, stop) && heapRefs(h.args[2], seen, out, stop)
	}
	return false
}

func (e *Exec) loopAttempt(f *frame, l *loopInfo, st0 *State, phis []*ssa.Phi, phiInit []Val, mods *loopMods, k *Term, base snap) ([]exitEdge, bool) {
	h := l.header
	lp := &loopRun{}
	st := st0.clone()
	phiSym := make([]Val, len(phis))
	for i, p := range phis {
		if t, ok := phiInit[i].(*Term); ok {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			phiSym[i] = lp.split(t, nm, 0)
		} else {
			phiSym[i] = phiInit[i]
		}
		f.env[p] = phiSym[i]
	}
	type locSym struct {
		key  string
		ref  *Term
		init *Term
		sym  *Term
	}
	var heapLocs, cellLocs []*locSym
	var allLocs []*locSym
	for _, T := range sortedKeysB(mods.heapAll) {
		init := e.heapAt(st0, T, nil)
		sym := lp.split(init, "H:"+T, 0)
		st.heap[T] = sym
		allLocs = append(allLocs, &locSym{key: T, init: init, sym: sym})
	}
	for _, T := range sortedKeysR(mods.heapObj) {
		if mods.heapAll[T] {
			continue
		}
		cur := e.heapAt(st0, T, nil)
		h0 := cur
		for _, r := range mods.heapObj[T] {
			init := mkSelect(h0, r)
			sym := lp.split(init, "obj:"+T, 0)
			cur = mkStore(cur, r, sym)
			heapLocs = append(heapLocs, &locSym{key: T, ref: r, init: init, sym: sym})
		}
		st.heap[T] = cur
	}
	for _, c := range sortedTerms(mods.cells) {
		sym := lp.split(st0.cells[c], "cell", 0)
		st.cells[c] = sym
		cellLocs = append(cellLocs, &locSym{ref: c, init: st0.cells[c], sym: sym})
	}
	var trSym *Term
	if mods.trace {
		trSym = lp.split(e.traceOf(st0), "trace", 0)
		st.trace = trSym
	}
	entryHeap := map[string]*Term{}
	for T, v := range st.heap {
		entryHeap[T] = v
	}

	e.iters = append(e.iters, k)
	backs, exits := e.runRegion(f, l, h, st)
	e.iters = e.iters[:len(e.iters)-1]
	for _, o := range backs {
		if o.st.guard == False {
			o.used = true
		}
	}
	{
		var nb []*edgeIn
		for _, b := range backs {
			if b.st.guard != False {
				nb = append(nb, b)
			}
		}
		backs = nb
	}
	fatal := append([]*State{}, e.exits[base.nexits:]...)

	if len(backs) == 0 {
		// the body runs at most once
		m := map[*Term]*Term{k: mkInt(0)}
		for _, lf := range lp.leaves {
			m[lf.sym] = lf.init
		}
		e.substAll(f, l, m, base, exits, fatal, nil)
		return exits, false
	}
	sts := make([]*State, len(backs))
	for i, b := range backs {
		sts[i] = b.st
	}
	sb, rest := e.mergeStates(sts)
	// back values of phis
	again := false
	phiBack := make([]Val, len(phis))
	for i, p := range phis {
		vs := make([]Val, len(backs))
		for j, b := range backs {
			vs[j] = e.val(f, b.st, p.Edges[e.predIdx(h, b.pred)])
			if _, ok := phiInit[i].(*Term); ok {
				vs[j] = e.term(b.st, vs[j])
			}
		}
		phiBack[i] = e.mergeVals(sts, rest, vs)
		if t, ok := phiInit[i].(*Term); ok {
			bt := e.term(sb, phiBack[i])
			if bt.sort != t.sort {
				e.unsup("loop phi changes representation")
			}
			phiBack[i] = bt
		} else if !valEq(phiInit[i], phiBack[i]) {
			e.unsup("loop-carried value of unsupported kind %T", phiInit[i])
		}
	}
	for j := range backs { // snapshots
		for c, v := range backs[j].st.cells {
			if _, ok := sb.cells[c]; !ok {
				sb.cells[c] = v
			}
		}
	}
	// modification analysis
	invariant := func(t *Term) bool {
		for v := range freeVars(t) {
			if v == k {
				return false
			}
			for _, lf := range lp.leaves {
				if lf.sym == v {
					return false
				}
			}
		}
		ok := true
		walk(t, map[*Term]bool{}, func(x *Term) {
			if e.bodyRef(x, base) {
				ok = false
			}
		})
		return ok
	}
	for T, v := range sb.heap {
		ent, had := entryHeap[T]
		if !had {
			ent = mkVar("H0:"+T, v.sort)
		}
		if v == ent || mods.heapAll[T] {
			continue
		}
		var refs []*Term
		stop := ent
		if _, obj := mods.heapObj[T]; obj {
			stop = e.heapAt(st0, T, v.sort)
		}
		ok := heapRefs(v, map[*Term]bool{}, &refs, stop)
		inv := ok
		for _, r := range refs {
			if !invariant(r) {
				inv = false
			}
		}
		if len(refs) > 3 {
			inv = false
		}
		if !inv {
			mods.heapAll[T] = true
			again = true
			continue
		}
		for _, r := range refs {
			have := false
			for _, q := range mods.heapObj[T] {
				if q == r {
					have = true
				}
			}
			if !have {
				mods.heapObj[T] = append(mods.heapObj[T], r)
				again = true
			}
		}
	}
	for c, v := range st0.cells {
		if mods.cells[c] {
			continue
		}
		if nv := sb.cells[c]; nv != nil && nv != v {
			mods.cells[c] = true
			again = true
		}
	}
	if !mods.trace && sb.trace != st0.trace {
		mods.trace = true
		again = true
	}
	if again {
		return nil, true
	}
	// back values
	for i := range phis {
		if sym, ok := phiSym[i].(*Term); ok {
			lp.setBack(sym, phiBack[i].(*Term))
		}
	}
	for _, x := range allLocs {
		lp.setBack(x.sym, sb.heap[x.key])
	}
	for _, x := range heapLocs {
		lp.setBack(x.sym, mkSelect(sb.heap[x.key], x.ref))
	}
	for _, x := range cellLocs {
		lp.setBack(x.sym, sb.cells[x.ref])
	}
	if trSym != nil {
		lp.setBack(trSym, e.traceOf(sb))
	}
	// objects allocated by the body that survive the iteration
	reach := map[*Term]bool{} // cell refs (constants)
	reachF := map[string]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		walk(t, seen, func(x *Term) {
			if !e.bodyRef(x, base) {
				return
			}
			if x.op == OInt && !reach[x] {
				reach[x] = true
				if v, ok := sb.cells[x]; ok {
					visit(v)
				}
			} else if x.op == OFresh {
				reachF[x.name] = true
			}
		})
	}
	for _, lf := range lp.leaves {
		if lf.sym.sort.K == SArr {
			// stores to objects that survive
			continue
		}
		visit(lf.back)
	}
	for _, lf := range lp.leaves {
		if lf.sym.sort.K == SArr {
			visit(lf.back)
		}
	}
	for c := range reach {
		t := e.cellT[c]
		if t == nil {
			e.unsup("surviving allocation of unknown type")
		}
		T := tname(t)
		if _, isMap := t.Underlying().(*types.Map); isMap {
			T = "map:" + tname(t.Underlying())
		}
		if !mods.heapAll[T] {
			mods.heapAll[T] = true
			again = true
		}
	}
	if again {
		return nil, true
	}
	// rename surviving allocations
	ren := map[*Term]*Term{}
	for c := range reach {
		ren[c] = raw(OFresh, IntS, "s"+strconv.FormatInt(-c.ival.Int64(), 10), k)
	}
	renf := func(t *Term) *Term {
		t = subst(t, ren)
		return e.renameFresh(t, k, base)
	}
	for _, lf := range lp.leaves {
		lf.back = renf(lf.back)
	}
	// stores of the surviving objects into their heaps
	var order []*Term
	for _, c := range sortedTerms(reach) {
		order = append(order, c)
	}
	for _, c := range order {
		t := e.cellT[c]
		T := tname(t)
		if _, isMap := t.Underlying().(*types.Map); isMap {
			T = "map:" + tname(t.Underlying())
		}
		for _, x := range allLocs {
			if x.key == T {
				for _, lf := range lp.leaves {
					if lf.sym == x.sym {
						lf.back = mkStore(lf.back, ren[c], renf(sb.cells[c]))
					}
				}
			}
		}
	}
	solved := e.solveLeaves(lp, k)
	// exit conditions
	entry := map[*Term]bool{}
	for _, c := range conj(st0.guard) {
		entry[c] = true
	}
	rel := func(g *Term) *Term {
		var r []*Term
		for _, c := range conj(g) {
			if !entry[c] {
				r = append(r, c)
			}
		}
		return subst(mkAnd(r...), solved)
	}
	var n *Term
	headerExit := map[int]bool{}
	xs := make([]*Term, len(exits))
	for i, x := range exits {
		xs[i] = rel(x.st.guard)
		if x.from == h {
			if b := boundOf(xs[i], k); b != nil {
				if n == nil {
					n = b
					headerExit[i] = true
				}
			}
		}
	}
	inRange := True
	if n != nil {
		if !nonneg(n) {
			n = mkIte(mkLe(mkInt(0), n), n, mkInt(0))
		}
		inRange = mkLt(k, n)
	}
	var xin []*Term
	for i := range exits {
		if headerExit[i] {
			continue
		}
		xs[i] = under(inRange, xs[i])
		xin = append(xin, xs[i])
	}
	fx := make([]*Term, len(fatal))
	for i, s := range fatal {
		fx[i] = under(inRange, rel(s.guard))
		xin = append(xin, fx[i])
	}
	X := mkOr(xin...)
	lamX := mkLam([]*Term{k}, X)
	var K, exX *Term
	if n != nil {
		K = mkFirst(n, lamX)
		exX = mkEx(n, lamX)
		if X == False {
			K = n
		}
	} else {
		K = raw(OFirstU, IntS, "", lamX)
		exX = True
		e.assume["termination of the unbounded loop in "+e.curFn.String()+" is not established (partial correctness)"] = true
	}
	at := func(kv *Term) map[*Term]*Term {
		m := map[*Term]*Term{k: kv}
		for s, c := range solved {
			m[s] = subst(c, map[*Term]*Term{k: kv})
		}
		return m
	}
	mK := at(K)
	noEarlier := mkNot(mkEx(k, lamX))
	bodyGuard := mkAnd(inRange, noEarlier)
	if n == nil {
		bodyGuard = mkNot(mkEx(k, lamX))
	}
	nin := len(xin)
	for i := range exits {
		x := &exits[i]
		var g *Term
		var m map[*Term]*Term
		if headerExit[i] {
			g = mkAnd(st0.guard, mkNot(exX))
			m = at(n)
		} else {
			m = mK
			cond := exX
			if nin > 1 || n == nil {
				cond = mkAnd(exX, subst(xs[i], map[*Term]*Term{k: K}))
			}
			g = mkAnd(st0.guard, cond)
		}
		if g == False {
			x.st = &State{guard: False, heap: map[string]*Term{}, cells: map[*Term]*Term{}}
			continue
		}
		x.st = e.substState(x.st, m, g)
	}
	for i, s := range fatal {
		cond := exX
		if nin > 1 || n == nil {
			cond = mkAnd(exX, subst(fx[i], map[*Term]*Term{k: K}))
		}
		*s = *e.substState(s, mK, mkAnd(st0.guard, cond))
	}
	// obligations of the body
	ms := map[*Term]*Term{}
	for s, c := range solved {
		ms[s] = c
	}
	// preconditions assumed in the body hold in every iteration that was reached
	facts := True
	if n != nil {
		for _, q := range e.reqs[base.nreq:] {
			bad := under(inRange, mkAnd(rel(q.guard), mkNot(subst(q.cond, ms))))
			facts = mkAnd(facts, mkNot(mkEx(K, mkLam([]*Term{k}, bad))))
		}
	}
	e.reqs = e.reqs[:base.nreq]
	if facts != True && len(e.iters) == 0 && e.lemmaMode == 0 {
		e.facts = append(e.facts, mkOr(mkNot(st0.guard), facts))
	} else if facts != True {
		e.lost++
		e.noteReq(st0.guard, facts)
		for i := range exits {
			if exits[i].st.guard != False {
				exits[i].st.guard = mkAnd(exits[i].st.guard, facts)
			}
		}
		for _, s := range fatal {
			s.guard = mkAnd(s.guard, facts)
		}
	}
	for _, o := range e.obl[base.nobl:] {
		delete(e.oblSeen, [2]*Term{o.Guard, o.Cond})
		o.Guard = mkAnd(subst(o.Guard, ms), bodyGuard)
		o.Cond = under(o.Guard, subst(o.Cond, ms))
	}
	e.pruneObl(base.nobl)
	// registers
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			if x, ok := f.env[v]; ok {
				f.env[v] = substVal(x, mK)
			}
			if p, ok := f.prov[v]; ok {
				f.prov[v] = substVal(p, mK).(*Addr)
			}
		}
	}
	return exits, false
}

func (e *Exec) pruneObl(from int) {
	out := e.obl[:from]
	for _, o := range e.obl[from:] {
		if (o.Guard == False || o.Cond == True) && o.Kind != "ensures" && o.Kind != "pre" {
			continue
		}
		out = append(out, o)
	}
	e.obl = out
}

// bodyRef: a reference allocated since the snapshot.
func (e *Exec) bodyRef(x *Term, base snap) bool {
	switch x.op {
	case OInt:
		if x.ival.Sign() < 0 && x.ival.IsInt64() {
			r := -x.ival.Int64()
			return r > base.nref && r <= e.nref
		}
	case OFresh:
		r, _ := strconv.ParseInt(x.name[1:], 10, 64)
		return r > base.nref && r <= e.nref
	}
	return false
}

// renameFresh indexes the references allocated by inner loops with this loop's counter.
func (e *Exec) renameFresh(t, k *Term, base snap) *Term {
	var has bool
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.op == OFresh && e.bodyRef(x, base) && (len(x.args) == 0 || x.args[0] != k) {
			has = true
		}
	})
	if !has {
		return t
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if len(t.args) == 0 {
			return t
		}
		key := [2]int{t.id, d}
		if r, ok := memo[key]; ok {
			return r
		}
		dd := d
		if t.op == OLam {
			dd += len(t.bs)
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a, dd)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		if r.op == OFresh && e.bodyRef(r, base) && r.args[0] != k {
			r = raw(OFresh, IntS, r.name, append([]*Term{k}, r.args...)...)
		}
		memo[key] = r
		return r
	}
	return rec(t, 0)
}

func (e *Exec) heapAt(st *State, T string, s *Sort) *Term {
	if h, ok := st.heap[T]; ok {
		return h
	}
	if s == nil {
		s = e.heapSort(T)
	}
	return mkVar("H0:"+T, s)
}
func (e *Exec) heapSort(T string) *Sort {
	if s, ok := e.heapSorts[T]; ok {
		return s
	}
	if t, ok := tnames[T]; ok {
		return ArrOf(sortOf(t))
	}
	e.unsup("heap sort of %s", T)
	return nil
}

func substVal(v Val, m map[*Term]*Term) Val {
	switch x := v.(type) {
	case *Term:
		return subst(x, m)
	case *Addr:
		if x == nil {
			return x
		}
		n := *x
		if x.base != nil {
			n.base = subst(x.base, m)
		}
		if x.sl != nil {
			n.sl = subst(x.sl, m)
		}
		if x.idx != nil {
			n.idx = subst(x.idx, m)
		}
		n.path = append([]pe{}, x.path...)
		for i := range n.path {
			if n.path[i].idx != nil {
				n.path[i].idx = subst(n.path[i].idx, m)
			}
		}
		if x.prov != nil {
			n.prov = substVal(x.prov, m).(*Addr)
		}
		return &n
	case Tuple:
		o := make(Tuple, len(x))
		for i := range x {
			o[i] = substVal(x[i], m)
		}
		return o
	case *Clo:
		o := &Clo{fn: x.fn}
		for _, b := range x.binds {
			o.binds = append(o.binds, substVal(b, m))
		}
		return o
	}
	return v
}

func (e *Exec) substState(s *State, m map[*Term]*Term, guard *Term) *State {
	n := &State{guard: guard, heap: map[string]*Term{}, cells: map[*Term]*Term{}}
	for k, v := range s.heap {
		n.heap[k] = under(guard, subst(v, m))
	}
	for k, v := range s.cells {
		n.cells[k] = under(guard, subst(v, m))
	}
	if s.trace != nil {
		n.trace = under(guard, subst(s.trace, m))
	}
	return n
}

// substAll: the loop never iterates twice.
func (e *Exec) substAll(f *frame, l *loopInfo, m map[*Term]*Term, base snap, exits []exitEdge, fatal []*State, _ *Term) {
	for i := range exits {
		x := &exits[i]
		x.st = e.substState(x.st, m, subst(x.st.guard, m))
	}
	for _, s := range fatal {
		*s = *e.substState(s, m, subst(s.guard, m))
	}
	for _, o := range e.obl[base.nobl:] {
		delete(e.oblSeen, [2]*Term{o.Guard, o.Cond})
		o.Guard = subst(o.Guard, m)
		o.Cond = under(o.Guard, subst(o.Cond, m))
	}
	for i := range e.reqs[base.nreq:] {
		q := &e.reqs[base.nreq+i]
		q.guard, q.cond = subst(q.guard, m), subst(q.cond, m)
	}
	e.pruneObl(base.nobl)
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if x, ok := f.env[v]; ok {
					f.env[v] = substVal(x, m)
				}
				if p, ok := f.prov[v]; ok {
					f.prov[v] = substVal(p, m).(*Addr)
				}
			}
		}
	}
}

// boundOf: cond is "n <= k" with n free of k.
func boundOf(cond, k *Term) *Term {
	if cond.op != OLe0 {
		return nil
	}
	ln := linOf(cond.args[0])
	c, ok := ln.m[k]
	if !ok || c.Int64() != -1 {
		return nil
	}
	n := mkAdd(cond.args[0], k)
	if hasVar(n, k) {
		return nil
	}
	return n
}

func (e *Exec) solveLeaves(lp *loopRun, k *Term) map[*Term]*Term {
	solved := map[*Term]*Term{}
	isLeaf := map[*Term]*leaf{}
	for _, lf := range lp.leaves {
		isLeaf[lf.sym] = lf
	}
	for progress := true; progress; {
		progress = false
		for _, lf := range lp.leaves {
			if lf.closed != nil {
				continue
			}
			b := subst(lf.back, solved)
			lf.back = b
			self, other := false, false
			for v := range freeVars(b) {
				if v == lf.sym {
					self = true
				} else if o, ok := isLeaf[v]; ok && o.closed == nil {
					other = true
				}
			}
			var c *Term
			if b == lf.sym {
				c = lf.init
			} else if other {
				continue
			} else if !self {
				// value of the previous iteration
				c = mkIte(mkLe(k, mkInt(0)), lf.init, subst(b, map[*Term]*Term{k: mkSubI(k, mkInt(1))}))
				if !hasVar(b, k) && b == lf.init {
					c = lf.init
				}
			} else {
				c = closedForm(lf, b, k)
			}
			if c != nil {
				lf.closed = c
				solved[lf.sym] = c
				progress = true
			}
		}
	}
	var un []*leaf
	for _, lf := range lp.leaves {
		if lf.closed == nil {
			un = append(un, lf)
		}
	}
	if len(un) > 0 {
		vars := []*Term{k}
		var backs []*Term
		var inits []*Term
		for _, lf := range un {
			vars = append(vars, lf.sym)
			backs = append(backs, subst(lf.back, solved))
			inits = append(inits, lf.init)
		}
		lam := mkLam(vars, raw(OTup, TupS, "", backs...))
		for i, lf := range un {
			lf.closed = mkIter(strconv.Itoa(i), lf.sym.sort, append([]*Term{k, lam}, inits...))
			solved[lf.sym] = lf.closed
		}
		// closed forms that mention iterated leaves
		for _, lf := range lp.leaves {
			solved[lf.sym] = subst(solved[lf.sym], solved)
		}
	}
	return solved
}

func closedForm(lf *leaf, b, k *Term) *Term {
	x := lf.sym
	lam := func(t *Term) *Term { return mkLam([]*Term{k}, t) }
	// ite(c, v, x)
	if b.op == OIte && x.sort != BoolS {
		c, v := b.args[0], b.args[1]
		if b.args[1] == x {
			c, v = mkNot(b.args[0]), b.args[2]
		} else if b.args[2] != x {
			c = nil
		}
		if c != nil && !hasVar(c, x) && !hasVar(v, x) {
			if !hasVar(v, k) {
				return mkIte(mkEx(k, lam(c)), v, lf.init)
			}
			// the last iteration where c held
			back := func(t *Term, i *Term) *Term {
				return subst(t, map[*Term]*Term{k: mkSubI(mkSubI(k, mkInt(1)), i)})
			}
			freshN++
			i := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
			last := mkFirst(k, mkLam([]*Term{i}, back(c, i)))
			return mkIte(mkEx(k, lam(c)), back(v, last), lf.init)
		}
	}
	switch x.sort.K {
	case SInt:
		d := mkSubI(b, x)
		if !hasVar(d, x) {
			if !hasVar(d, k) {
				return mkAdd(lf.init, mkMul(d, k))
			}
			return mkAdd(lf.init, mkSum(k, lam(d)))
		}
	case SBool:
		p := subst(b, map[*Term]*Term{x: False})
		q := subst(b, map[*Term]*Term{x: True})
		switch {
		case q == True:
			return mkOr(lf.init, mkEx(k, lam(p)))
		case p == False:
			return mkAnd(lf.init, mkNot(mkEx(k, lam(mkNot(q)))))
		}
	case SStr, SSeq:
		if b.op == OConcat && b.args[0] == x {
			rest := mkConcat(x.sort, b.args[1:]...)
			if !hasVar(rest, x) {
				return mkConcat(x.sort, lf.init, mkFlatMap(k, lam(rest)))
			}
		}
		if b.op == OUpd && b.args[0] == x && !hasVar(b.args[1], x) && !hasVar(b.args[2], x) && b.args[1] == k {
			return mkConcat(x.sort, mkFlatMap(k, lam(mkUnit(b.args[2]))), mkSub(lf.init, k, mkSubI(mkLen(lf.init), k)))
		}
		if x.sort.K == SSeq && pointwiseUpd(b, x, k) {
			// every iteration reads and writes only its own element
			self := mkNth(x, k)
			w := subst(mkNth(b, k), map[*Term]*Term{self: mkNth(lf.init, k)})
			if !hasVar(w, x) {
				freshN++
				i := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
				wi := subst(w, map[*Term]*Term{k: i})
				return mkFlatMap(mkLen(lf.init), mkLam([]*Term{i}, mkUnit(mkIte(mkLt(i, k), wi, mkNth(lf.init, i)))))
			}
		}
	case SArr:
		// fills at references allocated by the iterations
		if fs, ok := collectFills(b, x, k); ok && len(fs) > 0 {
			r := lf.init
			for i := len(fs) - 1; i >= 0; i-- {
				f := fs[i]
				if f.n == nil {
					r = mkHFill(r, k, lam(f.r), lam(f.v))
					continue
				}
				freshN++
				j := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
				freshN++
				i := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
				lam2 := func(l *Term) *Term { return mkLam([]*Term{i, j}, subst(inst(l, j), map[*Term]*Term{k: i})) }
				r = mkHFill(r, k, lam2(f.r), lam2(f.v), lam(f.n))
			}
			return r
		}
	}
	return nil
}

// heapFill: what an iteration writes to the objects that it allocates; n, r and v describe those of an inner loop.
type heapFill struct{ r, v, n *Term }

// collectFills: b is the heap x with objects filled in that iteration k allocated. An object that is allocated on one
// branch only cannot be referred to on the other, so that its contents need no guard.
func collectFills(b, x, k *Term) ([]heapFill, bool) {
	switch {
	case b == x:
		return nil, true
	case b.op == OStore:
		r := b.args[1]
		if r.op != OFresh || len(r.args) != 1 || r.args[0] != k || hasVar(b.args[2], x) {
			return nil, false
		}
		fs, ok := collectFills(b.args[0], x, k)
		if !ok {
			return nil, false
		}
		out := []heapFill{{r, b.args[2], nil}}
		for _, f := range fs {
			if f.r != r {
				out = append(out, f)
			}
		}
		return out, true
	case b.op == OHFill && len(b.args) == 4:
		r := b.args[2].args[0]
		if r.op != OFresh || len(r.args) != 2 || r.args[0] != k || r.args[1] != mkBV(0, IntS) || hasVar(b.args[3], x) || hasVar(b.args[1], x) {
			return nil, false
		}
		fs, ok := collectFills(b.args[0], x, k)
		if !ok {
			return nil, false
		}
		for _, f := range fs {
			if f.n != nil && f.r.args[0].name == r.name {
				return nil, false
			}
		}
		return append([]heapFill{{b.args[2], b.args[3], b.args[1]}}, fs...), true
	case b.op == OIte:
		if hasVar(b.args[0], x) {
			return nil, false
		}
		ps, ok := collectFills(b.args[1], x, k)
		if !ok {
			return nil, false
		}
		qs, ok := collectFills(b.args[2], x, k)
		if !ok {
			return nil, false
		}
		used := map[int]bool{}
		var out []heapFill
		for _, p := range ps {
			for i, q := range qs {
				if p.r != q.r || used[i] || (p.n == nil) != (q.n == nil) {
					continue
				}
				used[i] = true
				if p.n != nil {
					if p.n != q.n {
						p.n = mkIte(b.args[0], p.n, q.n)
					}
					if p.v != q.v {
						c := shift(b.args[0], 1, 0)
						p.v = mkLamRaw(p.v.bs, mkIte(c, p.v.args[0], q.v.args[0]))
					}
				} else {
					p.v = mkIte(b.args[0], p.v, q.v)
				}
				break
			}
			out = append(out, p)
		}
		for i, q := range qs {
			if !used[i] {
				out = append(out, q)
			}
		}
		return out, true
	}
	return nil, false
}

func sortedKeysB(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}
func sortedKeysR(m map[string][]*Term) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}
func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sortTerms(r)
	return r
}
func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && strings.Compare(s[j], s[j-1]) < 0; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// pointwiseUpd: b is x with at most element k replaced.
func pointwiseUpd(b, x, k *Term) bool {
	switch b.op {
	case OIte:
		return pointwiseUpd(b.args[1], x, k) && pointwiseUpd(b.args[2], x, k)
	case OUpd:
		return b.args[1] == k && pointwiseUpd(b.args[0], x, k)
	}
	return b == x
}
