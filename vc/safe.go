// Safety contracts: a contract function that calls its target between Requires and Ensures. The target's body is executed
// once for all inputs; every loop is cut at its head: the state that the loop changes is unknown there except for the
// invariants of the objects in memory, which are established on entry and preserved by one iteration, and a measure goes
// down. A call of a function that has a safety contract is decided by that contract alone.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type safeRun struct {
	c      *Contract
	args   []Val
	apply  []*safeApply
	inInv  bool
	noted  map[[2]*Term]bool
	loopN  int
	active bool
}

type safeApply struct {
	c    *Contract
	done bool
	res  Val
}

// safeTarget runs the call of the target inside its own contract function, or stands for it at a call site.
func (e *Exec) safeTarget(fn *ssa.Function, args []Val, st *State, pos token.Pos) (Val, *State, bool) {
	S := e.safe
	if S == nil {
		return nil, nil, false
	}
	if n := len(S.apply); n > 0 && e.spec > 0 && S.apply[n-1].c.Target == fn && !S.apply[n-1].done {
		a := S.apply[n-1]
		a.done = true
		e.safeObjInv("before the call of "+a.c.TargetN+": ", st, e.curFn)
		v, ns := e.safeHavoc(fn, args, st)
		a.res = v
		return v, ns, true
	}
	if e.spec > 0 && fn == S.c.Target && !S.active && len(S.apply) == 0 {
		S.active = true
		saved, sreq := e.spec, e.reqStack
		e.spec, e.reqStack = 0, nil
		v, ns := e.callFn(fn, args, nil, st, pos)
		e.spec, e.reqStack = saved, sreq
		if ns != nil {
			e.safeObjInv("at the end: ", ns, fn)
		}
		return v, ns, true
	}
	if e.spec == 0 {
		if c := e.P.safe[fn]; c != nil {
			e.viaC[c.Name] = true
			a := &safeApply{c: c}
			S.apply = append(S.apply, a)
			e.reqStack = append(e.reqStack, reqFrame{check: true, what: c.Name})
			savedPos := e.callPos
			e.callPos = pos
			e.spec++
			as := args
			_, ns := e.callFn(c.Fn, as, nil, st, pos)
			e.spec--
			e.callPos = savedPos
			e.reqStack = e.reqStack[:len(e.reqStack)-1]
			S.apply = S.apply[:len(S.apply)-1]
			if !a.done {
				if ns == nil {
					return nil, nil, true
				}
				e.unsup("safety contract %s does not call its target", c.Name)
			}
			return a.res, ns, true
		}
	}
	return nil, nil, false
}

func (e *Exec) safeHavoc(fn *ssa.Function, args []Val, st *State) (Val, *State) {
	S := e.safe
	S.loopN++
	ns := st.clone()
	eff := e.P.effects(fn)
	for _, T := range sortedKeysB(eff) {
		if strings.HasPrefix(T, "#") {
			continue
		}
		if h := e.heapTry(ns, T); h != nil {
			ns.heap[T] = mkVar(fmt.Sprintf("sc%d.H:%s", S.loopN, T), h.sort)
		}
	}
	var cs []*Term
	for c := range ns.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ival.Cmp(cs[j].ival) > 0 })
	for _, c := range cs {
		t := e.cellT[c]
		if t == nil || e.isGlobalRef(c) {
			continue
		}
		T := tname(t)
		if _, m := t.Underlying().(*types.Map); m {
			T = "map:" + tname(t.Underlying())
		}
		if eff[T] {
			e.safeN++
			ns.cells[c] = lockSym(fmt.Sprintf("sc%d.cell%d", S.loopN, e.safeN), ns.cells[c].sort, 0)
			if inv := e.P.objInv[T]; inv != nil {
				e.facts = append(e.facts, mkOr(mkNot(ns.guard), e.evalInv(inv, ns, c)))
			}
		}
	}
	sig := fn.Signature
	var tp Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := lockSym(fmt.Sprintf("sc%d.r%d", S.loopN, i), sortOf(t), 0)
		e.rangeFact(v, t)
		tp = append(tp, v)
	}
	switch len(tp) {
	case 0:
		return nil, ns
	case 1:
		return tp[0], ns
	}
	return tp, ns
}

func (e *Exec) heapTry(st *State, T string) (h *Term) {
	if h, ok := st.heap[T]; ok {
		return h
	}
	if s, ok := e.heapSorts[T]; ok {
		return mkVar("H0:"+T, s)
	}
	if t, ok := tnames[T]; ok {
		return mkVar("H0:"+T, ArrOf(sortOf(t)))
	}
	return nil
}

func (e *Exec) rangeFact(v *Term, t types.Type) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.sort != IntS {
		return
	}
	max := map[types.BasicKind]int64{types.Uint8: 1<<8 - 1, types.Uint16: 1<<16 - 1, types.Uint32: 1<<32 - 1}[b.Kind()]
	if max > 0 {
		e.facts = append(e.facts, mkLe(mkInt(0), v), mkLe(v, mkInt(max)))
	} else if b.Info()&types.IsUnsigned != 0 {
		e.facts = append(e.facts, mkLe(mkInt(0), v))
	}
}

// evalInv is the truth of an object invariant for ref in a state.
func (e *Exec) evalInv(inv *ssa.Function, st *State, ref *Term) *Term {
	S := e.safe
	lm, rq, sp, in, nreq := e.lemmaMode, e.reqStack, e.spec, S.inInv, len(e.reqs)
	e.lemmaMode, S.inInv = 3, true
	e.spec++
	e.reqStack = append(append([]reqFrame{}, rq...), reqFrame{})
	s := st.clone()
	s.guard = True
	v, _ := e.callFn(inv, []Val{ref}, nil, s, token.NoPos)
	e.lemmaMode, e.reqStack, e.spec, S.inInv = lm, rq, sp, in
	e.reqs = e.reqs[:nreq]
	t := e.term(st, v)
	// a statement about objects reached from here needs their invariants too
	return t
}

// noteObj assumes the invariant of an object of a heap that is known to satisfy it.
func (e *Exec) noteObj(v *Term, t types.Type) {
	S := e.safe
	if S == nil || S.inInv {
		return
	}
	T := tname(t)
	inv := e.P.objInv[T]
	if inv == nil {
		return
	}
	seen := map[*Term]bool{}
	var found [][2]*Term
	walk(v, seen, func(x *Term) {
		if x.op == OSelect && x.args[0].op == OVar && strings.HasSuffix(x.args[0].name, ":"+T) {
			found = append(found, [2]*Term{x.args[0], x.args[1]})
		}
	})
	for _, k := range found {
		if S.noted[k] || k[1].op == OFresh {
			continue
		}
		S.noted[k] = true
		s := &State{guard: True, heap: map[string]*Term{T: k[0]}, cells: map[*Term]*Term{}}
		e.facts = append(e.facts, mkOr(mkEq(k[1], mkInt(0)), e.evalInv(inv, s, k[1])))
	}
}

// safeObjInv: every object written so far satisfies its invariant.
func (e *Exec) safeObjInv(nm string, st *State, fn *ssa.Function) {
	for _, T := range sortedInv(e.P.objInv) {
		inv := e.P.objInv[T]
		h := st.heap[T]
		if h != nil {
			e.heapT[T] = tnames[T]
			var refs []*Term
			bs := map[*Term]bool{}
			heapBases(h, map[*Term]bool{}, bs)
			collectStores(h, map[*Term]bool{}, &refs)
			for _, r := range refs {
				e.noteObj(mkSelect(h, r), tnames[T])
				e.oblige1("inv", nm+inv.Name()+" holds", st, mkOr(mkEq(r, mkInt(0)), e.evalInv(inv, st, r)), fn.Pos())
			}
		}
		for _, c := range sortedCells(st.cells) {
			if t := e.cellT[c]; t != nil && tname(t) == T && !e.isGlobalRef(c) {
				e.oblige1("inv", nm+inv.Name()+" holds for a new object", st, e.evalInv(inv, st, c), fn.Pos())
			}
		}
	}
}

func (e *Exec) oblige1(kind, nm string, st *State, c *Term, pos token.Pos) {
	sp := e.spec
	e.spec = 0
	e.oblige(kind, nm, st, c, pos)
	e.spec = sp
}

func collectStores(h *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[h] {
		return
	}
	seen[h] = true
	switch h.op {
	case OStore:
		dup := false
		for _, r := range *out {
			if r == h.args[1] {
				dup = true
			}
		}
		if !dup {
			*out = append(*out, h.args[1])
		}
		collectStores(h.args[0], seen, out)
	case OHFill:
		collectStores(h.args[0], seen, out)
	case OIte:
		collectStores(h.args[1], seen, out)
		collectStores(h.args[2], seen, out)
	}
}

func sortedInv(m map[string]*ssa.Function) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedCells(m map[*Term]*Term) []*Term {
	var cs []*Term
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ival.Cmp(cs[j].ival) > 0 })
	return cs
}

type safePhi struct {
	p         *ssa.Phi
	init, sym *Term
	back      *Term
}

type safeMods struct {
	heap  map[string]bool
	cells map[*Term]bool
	refs  map[string][]*Term
	drop  map[string]bool
	ind   map[int]int64
	fix   map[int]bool    // phis that change
	wild  map[string]bool // heaps that change at unknown places
	field map[string]bool // "T ref field": fields that change
	fsym  map[string]*Term
	find  map[string]int64
	short map[string]bool // sequences that do not only grow
	nils  map[int]bool
}

func (e *Exec) safeLoop(f *frame, l *loopInfo) []exitEdge {
	h := l.header
	st0 := e.enter(f, h)
	if st0 == nil {
		return nil
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	inits := make([]Val, len(phis))
	for i, p := range phis {
		v := f.env[p]
		if c, ok := v.(*CellSl); ok {
			v = e.term(st0, c)
		}
		if a, ok := v.(*Addr); ok && len(a.path) > 0 {
			v = e.term(st0, a)
		}
		inits[i] = v
	}
	m := &safeMods{heap: map[string]bool{}, cells: map[*Term]bool{}, refs: map[string][]*Term{}, drop: map[string]bool{}, ind: map[int]int64{}, fix: map[int]bool{}, nils: map[int]bool{},
		wild: map[string]bool{}, field: map[string]bool{}, find: map[string]int64{}, short: map[string]bool{}}
	for i, p := range e.safe.c.Fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if t, ok := e.safe.args[i].(*Term); ok {
				m.refs[tname(pt.Elem())] = append(m.refs[tname(pt.Elem())], t)
			}
		}
	}
	base := e.takeSnap()
	nf := len(e.facts)
	for round := 0; ; round++ {
		if round > 25 {
			e.unsup("safety: loop analysis does not converge")
		}
		e.rollback(base)
		e.facts = e.facts[:nf]
		exits, again := e.safeAttempt(f, l, st0, phis, inits, m)
		if !again {
			return exits
		}
		// facts about objects noted during the discarded attempt stay valid; they are noted again when needed
		e.safe.noted = map[[2]*Term]bool{}
	}
}

func (e *Exec) safeAttempt(f *frame, l *loopInfo, st0 *State, phis []*ssa.Phi, inits []Val, m *safeMods) ([]exitEdge, bool) {
	S := e.safe
	S.loopN++
	n := S.loopN
	h := l.header
	pos := token.NoPos
	for _, ins := range h.Instrs {
		if ins.Pos() != token.NoPos {
			pos = ins.Pos()
			break
		}
	}
	e.safeObjInv(fmt.Sprintf("loop at %s, on entry: ", e.P.pos(pos)), st0, f.fn)
	st := st0.clone()
	for _, T := range sortedKeysB(m.heap) {
		if T == "#trace" {
			st.trace = mkVar(fmt.Sprintf("sl%d.trace", n), SeqOf(IfaceS))
			continue
		}
		if m.wild[T] {
			st.heap[T] = mkVar(fmt.Sprintf("sl%d.H:%s", n, T), e.heapAt(st0, T, nil).sort)
			continue
		}
		stt := tnames[T].Underlying().(*types.Struct)
		hp := e.heapAt(st0, T, nil)
		for ri, r := range m.refs[T] {
			v := mkSelect(hp, r)
			if e.safe != nil {
				e.noteObj(v, tnames[T])
			}
			as := make([]*Term, stt.NumFields())
			any := false
			for j := range as {
				as[j] = mkSel(v, j)
				key := fmt.Sprintf("%s %d %d", T, ri, j)
				if m.field[key] {
					any = true
					x := lockSym(fmt.Sprintf("sl%d.f%d_%d_%d", n, typeID(T), ri, j), as[j].sort, 0)
					e.rangeFact(x, stt.Field(j).Type())
					if d, ok := m.find[key]; ok && d > 0 {
						e.facts = append(e.facts, mkLe(as[j], x))
					} else if ok && d < 0 {
						e.facts = append(e.facts, mkLe(x, as[j]))
					}
					as[j] = x
				}
			}
			if any {
				hp = mkStore(hp, r, mkMk(v.sort, as...))
			}
		}
		st.heap[T] = hp
		// the invariants hold at the head of the loop (checked on entry and after one iteration)
		if inv := e.P.objInv[T]; inv != nil {
			for _, r := range m.refs[T] {
				e.facts = append(e.facts, mkOr(mkNot(st0.guard), mkEq(r, mkInt(0)), e.evalInv(inv, st, r)))
			}
		}
	}
	// the measure does not grow (shown for one iteration below)
	grow := func(st1, st2 *State, f func(c *Term)) {
		if S.c.Flags["partial"] {
			return
		}
		for _, ms := range e.P.measures {
			T := tname(ms.Params[0].Type().Underlying().(*types.Pointer).Elem())
			if a := e.measureArgs(ms); a != nil && m.heap[T] {
				f(mkLe(e.measureAt(ms, st2, a), e.measureAt(ms, st1, a)))
			}
		}
	}
	grow(st0, st, func(c *Term) { e.facts = append(e.facts, mkOr(mkNot(st0.guard), c)) })
	var cs []*Term
	for c := range m.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ival.Cmp(cs[j].ival) > 0 })
	for i, c := range cs {
		if st.cells[c] == nil {
			continue
		}
		s := st.cells[c].sort
		st.cells[c] = lockSym(fmt.Sprintf("sl%d.c%d", n, i), s, 0)
		for j, q := range seqsOf(st.cells[c]) {
			if !m.short[fmt.Sprintf("cell %s %d", c, j)] {
				e.facts = append(e.facts, mkLe(mkLen(seqsOf(st0.cells[c])[j]), mkLen(q)))
			}
		}
		if t := e.cellT[c]; t != nil {
			e.rangeFact(st.cells[c], t)
			if inv := e.P.objInv[tname(t)]; inv != nil {
				e.facts = append(e.facts, e.evalInv(inv, st, c))
			}
		}
	}
	sp := make([]*safePhi, len(phis))
	type eq struct {
		i   int
		key string
		get func(s *State) *Term
	}
	var eqs []eq
	for i, p := range phis {
		t, ok := inits[i].(*Term)
		sp[i] = &safePhi{p: p}
		if !ok {
			f.env[p] = inits[i]
			continue
		}
		x := sp[i]
		x.init = t
		if !m.fix[i] {
			// does not change, as far as known
			x.sym = t
			f.env[p] = t
			continue
		}
		// equal to a field of an object that the loop changes?
		var cand []eq
		for T, refs := range m.refs {
			gt := tnames[T]
			if gt == nil {
				continue
			}
			stt, ok := gt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for _, r := range refs {
				for j := 0; j < stt.NumFields(); j++ {
					if sortOf(stt.Field(j).Type()) != t.sort {
						continue
					}
					T, r, j := T, r, j
					g := func(s *State) *Term { return mkSel(mkSelect(e.heapAt(s, T, nil), r), j) }
					key := fmt.Sprintf("%d %s %p %d", i, T, r, j)
					if !m.drop[key] && g(st0) == t {
						cand = append(cand, eq{i, key, g})
					}
				}
			}
		}
		for _, c := range cs {
			gt := e.cellT[c]
			if gt == nil {
				continue
			}
			if stt, ok := gt.Underlying().(*types.Struct); ok {
				for j := 0; j < stt.NumFields(); j++ {
					if sortOf(stt.Field(j).Type()) != t.sort {
						continue
					}
					c, j := c, j
					g := func(s *State) *Term { return mkSel(s.cells[c], j) }
					key := fmt.Sprintf("%d cell %s %d", i, c, j)
					if !m.drop[key] && g(st0) == t {
						cand = append(cand, eq{i, key, g})
					}
				}
			}
		}
		sort.Slice(cand, func(a, b int) bool { return cand[a].key < cand[b].key })
		if len(cand) > 0 {
			eqs = append(eqs, cand[0])
			x.sym = cand[0].get(st)
		} else {
			x.sym = lockSym(fmt.Sprintf("sl%d.%d", n, i), t.sort, 0)
			if t.sort.K == SSlice && mkSlNil(t) == False && !m.nils[i] {
				x.sym = mkSl(False, mkSlSeq(x.sym))
			}
			for j, q := range seqsOf(x.sym) {
				if !m.short[fmt.Sprintf("phi %d %d", i, j)] {
					e.facts = append(e.facts, mkLe(mkLen(seqsOf(t)[j]), mkLen(q)))
				}
			}
			e.rangeFact(x.sym, p.Type())
			if d, ok := m.ind[i]; ok && d > 0 {
				e.facts = append(e.facts, mkLe(t, x.sym))
			} else if ok && d < 0 {
				e.facts = append(e.facts, mkLe(x.sym, t))
			}
		}
		f.env[p] = x.sym
	}
	entry := st.clone()
	backs, exits := e.runRegion(f, l, h, st)
	e.lost++
	var nb []*edgeIn
	for _, b := range backs {
		b.used = true
		if b.st.guard != False {
			nb = append(nb, b)
		}
	}
	backs = nb
	if len(backs) == 0 {
		return exits, false
	}
	sts := make([]*State, len(backs))
	for i, b := range backs {
		sts[i] = b.st
	}
	sb, rest := e.mergeStates(sts)
	again := false
	for i, p := range phis {
		x := sp[i]
		vs := make([]Val, len(backs))
		for j, b := range backs {
			vs[j] = e.val(f, b.st, p.Edges[e.predIdx(h, b.pred)])
			if x.init != nil {
				vs[j] = e.term(b.st, vs[j])
			}
		}
		v := e.mergeVals(sts, rest, vs)
		if x.init == nil {
			if !valEq(f.env[p], v) {
				e.unsup("safety: loop-carried value of unsupported kind %T", v)
			}
			continue
		}
		x.back = e.term(sb, v)
		if !m.fix[i] {
			if x.back != x.sym {
				m.fix[i] = true
				again = true
			}
			continue
		}
		for j, q := range seqsOf(x.back) {
			if key := fmt.Sprintf("phi %d %d", i, j); !m.short[key] && !grows(q, seqsOf(x.sym)[j]) {
				m.short[key] = true
				again = true
			}
		}
		if x.back.sort.K == SSlice && mkSlNil(x.sym) == False && mkSlNil(x.back) != False && !m.nils[i] {
			m.nils[i] = true
			again = true
		}
		if x.sym.sort == IntS && m.ind[i] == 0 {
			if d := mkSubI(x.back, x.sym); d.op == OInt && d.ival.IsInt64() && d.ival.Sign() != 0 {
				m.ind[i] = d.ival.Int64()
				again = true
			}
		} else if d := m.ind[i]; d != 0 {
			if x.back != mkAdd(x.sym, mkInt(d)) {
				m.ind[i] = 0
				delete(m.ind, i)
				m.nils[-1-i] = true
				if !m.nils[-1000-i] {
					m.nils[-1000-i] = true
					again = true
				} else {
					e.unsup("safety: counter does not count")
				}
			}
		}
	}
	for _, b := range backs {
		for c, v := range b.st.cells {
			if _, ok := sb.cells[c]; !ok {
				sb.cells[c] = v
			}
		}
	}
	for _, q := range eqs {
		if sp[q.i].back != q.get(sb) {
			m.drop[q.key] = true
			again = true
		}
	}
	for T, v := range sb.heap {
		ent, ok := entry.heap[T]
		if !ok {
			ent = mkVar("H0:"+T, v.sort)
		}
		if v != ent {
			if !m.heap[T] {
				m.heap[T] = true
				again = true
			}
			if m.wild[T] {
				continue
			}
			_, isS := tnames[T]
			if isS {
				_, isS = tnames[T].Underlying().(*types.Struct)
			}
			var refs []*Term
			ba, bb := map[*Term]bool{}, map[*Term]bool{}
			heapBases(ent, map[*Term]bool{}, ba)
			heapBases(v, map[*Term]bool{}, bb)
			collectStores(v, map[*Term]bool{}, &refs)
			for b := range bb {
				if !ba[b] || b.op != OVar {
					isS = false
				}
			}
			if !isS {
				m.wild[T] = true
				again = true
				continue
			}
			for _, r := range refs {
				old := false
				for _, q := range m.refs[T] {
					if q == r {
						old = true
					}
				}
				if !old {
					again = true
					if !e.preLoop(r, n) {
						m.wild[T] = true
						break
					}
					m.refs[T] = append(m.refs[T], r)
				}
			}
			for ri, r := range m.refs[T] {
				x, y := mkSelect(ent, r), mkSelect(v, r)
				for j := range x.sort.Fields {
					a, b := mkSel(x, j), mkSel(y, j)
					if a == b {
						continue
					}
					key := fmt.Sprintf("%s %d %d", T, ri, j)
					if !m.field[key] {
						m.field[key] = true
						again = true
						continue
					}
					if a.sort != IntS {
						continue
					}
					if d, ok := m.find[key]; !ok {
						if k := mkSubI(b, a); k.op == OInt && k.ival.IsInt64() {
							m.find[key] = k.ival.Int64()
							again = true
						} else if k := e.monotone(b, a); k != 0 {
							m.find[key] = k
							again = true
						}
					} else if k := e.monotone(b, a); d != 0 && (k > 0) != (d > 0) || d != 0 && k == 0 {
						m.find[key] = 0
						again = true
					}
				}
			}
		}
	}
	if sb.trace != entry.trace && !m.heap["#trace"] {
		m.heap["#trace"] = true
		again = true
	}
	for c, v := range entry.cells {
		if nv := sb.cells[c]; nv != nil && nv != v && !m.cells[c] && !e.isGlobalRef(c) {
			m.cells[c] = true
			again = true
		}
	}
	for _, c := range cs {
		nv := sb.cells[c]
		if nv == nil || entry.cells[c] == nil {
			continue
		}
		for j, q := range seqsOf(nv) {
			if key := fmt.Sprintf("cell %s %d", c, j); !m.short[key] && !grows(q, seqsOf(entry.cells[c])[j]) {
				m.short[key] = true
				again = true
			}
		}
	}
	if again {
		return nil, true
	}
	// the invariants of the objects in memory
	e.safeObjInv(fmt.Sprintf("loop at %s, after one iteration: ", e.P.pos(pos)), sb, f.fn)
	grow(entry, sb, func(c *Term) {
		e.oblige1("measure", fmt.Sprintf("loop at %s, after one iteration: the measure did not grow", e.P.pos(pos)), sb, c, pos)
	})
	// termination
	if S.c.Flags["partial"] || e.countsDown(f, l, phis, sp, sb, n) {
		return exits, false
	}
	ok := False
	for _, ms := range e.P.measures {
		a := e.measureArgs(ms)
		if a == nil {
			continue
		}
		x, y := e.measureAt(ms, entry, a), e.measureAt(ms, sb, a)
		ok = mkOr(ok, mkAnd(mkLe(mkInt(0), x), mkLt(y, x)))
	}
	e.oblige1("measure", fmt.Sprintf("loop at %s ends", e.P.pos(pos)), sb, ok, pos)
	return exits, false
}

// seqsOf: the sequences in a value (itself, or the fields of a structure).
func seqsOf(t *Term) []*Term {
	switch t.sort.K {
	case SStr, SSeq:
		return []*Term{t}
	case SSlice:
		return []*Term{mkSlSeq(t)}
	case SStruct:
		var r []*Term
		for j, s := range t.sort.Fields {
			switch s.K {
			case SStr, SSeq:
				r = append(r, mkSel(t, j))
			case SSlice:
				r = append(r, mkSlSeq(mkSel(t, j)))
			}
		}
		return r
	}
	return nil
}

// grows: b is at least as long as a.
func grows(b, a *Term) bool {
	if a == b {
		return true
	}
	switch b.op {
	case OIte:
		return grows(b.args[1], a) && grows(b.args[2], a)
	case OConcat:
		for _, x := range b.args {
			if x == a {
				return true
			}
		}
	}
	return false
}

// monotone: b differs from a by steps in one direction only.
func (e *Exec) monotone(b, a *Term) int64 {
	if b == a {
		return 0
	}
	if b.op == OIte {
		x, y := e.monotone(b.args[1], a), e.monotone(b.args[2], a)
		if b.args[1] == a {
			return y
		}
		if b.args[2] == a || x != 0 && y != 0 && (x > 0) == (y > 0) {
			return x
		}
		return 0
	}
	if k := mkSubI(b, a); k.op == OInt && k.ival.IsInt64() {
		return k.ival.Int64()
	}
	return 0
}

func mkSlNilSafe(t *Term) *Term {
	if t == nil || t.sort.K != SSlice {
		return nil
	}
	return mkSlNil(t)
}

// preLoop: the reference does not depend on the variables of the loop.
func (e *Exec) preLoop(r *Term, n int) bool {
	ok := true
	walk(r, map[*Term]bool{}, func(x *Term) {
		if x.op == OVar && (strings.HasPrefix(x.name, fmt.Sprintf("sl%d.", n)) || safeVarAfter(x.name, n)) || x.op == OFresh {
			ok = false
		}
	})
	return ok
}

// safeVarAfter: a variable introduced while the body of loop n was executed.
func safeVarAfter(name string, n int) bool {
	var k int
	if strings.HasPrefix(name, "sl") || strings.HasPrefix(name, "sc") {
		if _, err := fmt.Sscanf(name[2:], "%d.", &k); err == nil {
			return k >= n
		}
	}
	return false
}

func (e *Exec) measureArgs(ms *ssa.Function) []Val {
	var as []Val
	for _, p := range ms.Params {
		found := false
		for i, q := range e.safe.c.Fn.Params {
			if types.Identical(p.Type(), q.Type()) {
				as = append(as, e.safe.args[i])
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return as
}

func (e *Exec) measureAt(ms *ssa.Function, st *State, as []Val) *Term {
	S := e.safe
	lm, rq, sp, in, nreq := e.lemmaMode, e.reqStack, e.spec, S.inInv, len(e.reqs)
	e.lemmaMode = 3
	e.spec++
	e.reqStack = append(append([]reqFrame{}, rq...), reqFrame{})
	s := st.clone()
	s.guard = True
	v, _ := e.callFn(ms, as, nil, s, token.NoPos)
	e.lemmaMode, e.reqStack, e.spec, S.inInv = lm, rq, sp, in
	e.reqs = e.reqs[:nreq]
	return e.term(st, v)
}

// countsDown: a counter runs towards a bound that the loop does not change, or the loop ranges over a collection.
func (e *Exec) countsDown(f *frame, l *loopInfo, phis []*ssa.Phi, sp []*safePhi, sb *State, n int) bool {
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Next); ok && b == l.header {
				return true
			}
		}
	}
	inv := func(v ssa.Value) bool {
		x, ok := f.env[v]
		if c, isC := v.(*ssa.Const); isC {
			return c.Value != nil
		}
		if !ok {
			return false
		}
		t, isT := x.(*Term)
		return isT && e.preLoop(t, n)
	}
	var counter func(v ssa.Value) int
	counter = func(v ssa.Value) int {
		for i, p := range phis {
			if p == v && sp[i].sym != nil {
				if d := sp[i].back; d != nil {
					if k := mkSubI(d, sp[i].sym); k.op == OInt {
						return k.ival.Sign()
					}
				}
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, c := b.Y.(*ssa.Const); c {
				return counter(b.X)
			}
		}
		return 0
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// executed in every iteration
		dom := true
		for _, p := range l.header.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				dom = false
			}
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !dom {
			continue
		}
		stay, op := l.blocks[b.Succs[0]], c.Op
		if stay == l.blocks[b.Succs[1]] {
			continue
		}
		x, y := c.X, c.Y
		if counter(x) == 0 {
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		if !stay {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
		}
		d := counter(x)
		if d > 0 && (op == token.LSS || op == token.LEQ) && inv(y) || d < 0 && (op == token.GTR || op == token.GEQ) && inv(y) {
			return true
		}
	}
	return false
}

// effects: the types of the objects that a call may change.
func (p *Program) effects(fn *ssa.Function) map[string]bool {
	if r, ok := p.effectsM[fn]; ok {
		return r
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	root := func(v ssa.Value) {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					v = x.X
					continue
				}
				if u, ok := x.X.(*ssa.UnOp); ok {
					v = u.X
					continue
				}
				return
			case *ssa.Alloc:
				// an object of the callee
				return
			}
			break
		}
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			out[tname(pt.Elem())] = true
		}
	}
	ptrArg := func(v ssa.Value) {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			out[tname(pt.Elem())] = true
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil {
			return
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && p.inRepo(g) {
						visit(g)
					}
				}
				switch x := ins.(type) {
				case *ssa.Store:
					root(x.Addr)
				case *ssa.MapUpdate:
					out["map:"+tname(x.Map.Type().Underlying())] = true
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
							for _, t := range p.runtimeTypes() {
								if types.IsInterface(t) || !types.Implements(t, it) {
									continue
								}
								if g := p.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); g != nil && p.inRepo(g) {
									visit(g)
								}
							}
						}
						continue
					}
					if g := cc.StaticCallee(); g != nil && !p.inRepo(g) {
						for _, a := range cc.Args {
							ptrArg(a)
						}
						// variadic arguments are stored in an array first
					}
				case *ssa.MakeInterface:
					// may be handed to a library function that writes to it
					if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Buffer" {
							out[tname(n)] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
	p.effectsM[fn] = out
	return out
}

// safeCallback: a library function calls the closure any number of times.
func (e *Exec) safeCallback(st *State, c *Clo, pos token.Pos) *State {
	S := e.safe
	st = st.clone()
	ch := map[*Term]bool{}
	for {
		S.loopN++
		base := e.takeSnap()
		nf := len(e.facts)
		s := st.clone()
		for i, r := range sortedCells(s.cells) {
			if ch[r] {
				s.cells[r] = lockSym(fmt.Sprintf("sc%d.cb%d", S.loopN, i), s.cells[r].sort, 0)
			}
		}
		x := mkVar(fmt.Sprintf("sc%d.rune", S.loopN), IntS)
		_, ns := e.callFn(c.fn, []Val{x}, c.binds, s.clone(), pos)
		if ns == nil {
			return s
		}
		again := false
		for r, v := range s.cells {
			if w := ns.cells[r]; w != nil && w != v && !ch[r] {
				ch[r] = true
				again = true
			}
		}
		for T, h := range ns.heap {
			if o, ok := s.heap[T]; ok && o != h || !ok && h.op != OVar {
				e.unsup("callback that changes objects in memory")
			}
		}
		if !again {
			return s
		}
		e.rollback(base)
		e.facts = e.facts[:nf]
	}
}
