// Obligation generation per contract.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ContractResult struct {
	C        *Contract
	Obl      []*Oblig
	Err      string // not executable by the condition generator
	Assume   []string
	Domain   []string // implicit preconditions
	Inlined  []string
	Via      []string
	Instrs   int
	GenTime  float64
	Failed   []*Oblig
	Proved   int
	Backends map[string]int
	SolverT  float64
	Reach    string
}

func newExec(p *Program, c *Contract) *Exec {
	return &Exec{P: p, oblSeen: map[[2]*Term]bool{}, nref: 1 << 50, flagData: map[*Term]*Term{}, cellT: map[*Term]types.Type{}, cellName: map[*Term]string{}, globals: map[*ssa.Global]*Term{},
		assume: map[string]bool{}, implicit: map[string]bool{}, inlined: map[string]bool{}, viaC: map[string]bool{}, escaped: map[*Term]bool{}, heapSorts: map[string]*Sort{}, heapT: map[string]types.Type{}, root: c}
}

func (e *Exec) inputs(fn *ssa.Function) []Val {
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mkVar(n, sortOf(p.Type())))
	}
	return args
}

// gen generates the obligations of a contract, once per case of its case analysis.
func gen(p *Program, c *Contract) (res *ContractResult) {
	if len(c.Cases) < 2 {
		return gen1(p, c, nil)
	}
	var reach *Term = False
	for i := 1; i <= len(c.Cases); i++ {
		i := i
		delete(reachGuards, c)
		r := gen1(p, c, func(e *Exec, st *State, args []Val) (*Term, string) {
			t := e.inputPath(c.Fn, st, args, c.Cases[0])
			if i < len(c.Cases) {
				n, _ := strconv.Atoi(c.Cases[i])
				return mkEq(t, mkInt(int64(n))), c.Cases[0] + "=" + c.Cases[i]
			}
			g := True
			for _, v := range c.Cases[1:] {
				n, _ := strconv.Atoi(v)
				g = mkAnd(g, mkNot(mkEq(t, mkInt(int64(n)))))
			}
			return g, c.Cases[0] + " other"
		})
		if g := reachGuards[c]; g != nil {
			reach = mkOr(reach, g)
		}
		if res == nil {
			res = r
			continue
		}
		res.Obl = append(res.Obl, r.Obl...)
		res.GenTime += r.GenTime
		res.Instrs += r.Instrs
		if r.Err != "" && res.Err == "" {
			res.Err = r.Err
		}
		res.Assume = union(res.Assume, r.Assume)
		res.Domain = union(res.Domain, r.Domain)
		res.Inlined = union(res.Inlined, r.Inlined)
		res.Via = union(res.Via, r.Via)
	}
	if reach != False {
		reachGuards[c] = reach
		res.Reach = "?"
	} else if res.Err == "" {
		res.Err = "the contract's precondition is contradictory"
	}
	return res
}

func union(a, b []string) []string {
	for _, x := range b {
		if !has(a, x) {
			a = append(a, x)
		}
	}
	sortStrings(a)
	return a
}

// inputPath is the value of param.field.field… in the initial state.
func (e *Exec) inputPath(fn *ssa.Function, st *State, args []Val, path string) *Term {
	ps := strings.Split(path, ".")
	for i, p := range fn.Params {
		if p.Name() != ps[0] {
			continue
		}
		v, t := args[i].(*Term), p.Type()
		for _, f := range ps[1:] {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				v = e.term(st, e.load(st, v, pt.Elem(), token.NoPos))
				t = pt.Elem()
			}
			sv, ok := t.Underlying().(*types.Struct)
			if !ok {
				e.unsup("case path %s", path)
			}
			for j := 0; j < sv.NumFields(); j++ {
				if sv.Field(j).Name() == f {
					v, t = mkSel(v, j), sv.Field(j).Type()
					break
				}
			}
		}
		return v
	}
	e.unsup("case path %s", path)
	return nil
}

func gen1(p *Program, c *Contract, caseOf func(*Exec, *State, []Val) (*Term, string)) (res *ContractResult) {
	if !c.Flags["lockstep"] {
		return gen2(p, c, caseOf, nil)
	}
	lock := &lockRun{fn: c.Fn, ind: map[string]int64{}, cells: map[string]bool{}, nils: map[string]bool{}, acc: map[string]bool{}, noacc: map[string]bool{}}
	for round := 0; ; round++ {
		lock.phase, lock.in, lock.n, lock.loops, lock.again, lock.clash, lock.cmp = 0, 0, 0, nil, false, false, false
		res = gen2(p, c, caseOf, lock)
		if !lock.again || round > 12 {
			if lock.again && res.Err == "" {
				res.Err = "lockstep analysis does not converge"
			}
			return res
		}
	}
}

func gen2(p *Program, c *Contract, caseOf func(*Exec, *State, []Val) (*Term, string), lock *lockRun) (res *ContractResult) {
	res = &ContractResult{C: c, Backends: map[string]int{}}
	t0 := time.Now()
	e := newExec(p, c)
	e.lock = lock
	defer func() {
		res.GenTime = time.Since(t0).Seconds()
		res.Instrs = e.instrs
		res.Assume = keysB(e.assume)
		res.Domain = keysB(e.implicit)
		res.Inlined = keysB(e.inlined)
		res.Via = keysB(e.viaC)
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = u.msg
				return
			}
			res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
	}()
	if c.Broken != "" {
		res.Err = "contract does not match the code: " + c.Broken
		return
	}
	st := &State{guard: True, heap: map[string]*Term{}, cells: map[*Term]*Term{}}
	args := e.inputs(c.Fn)
	if caseOf != nil {
		g, nm := caseOf(e, st, args)
		e.obl = nil
		st.guard, e.base = g, g
		defer func() {
			for _, o := range res.Obl {
				o.Name += " [" + nm + "]"
			}
		}()
	}
	if c.Kind == "lemma" {
		e.reqStack = append(e.reqStack, reqFrame{})
		_, ns := e.callFn(c.Fn, args, nil, st, token.NoPos)
		if ns == nil && len(e.exits) == 0 {
			res.Reach = "never returns"
		}
		if ns != nil {
			res.reachGuard(ns.guard)
		}
		e.finish(res)
		return
	}
	if c.Kind == "safe" {
		e.safe = &safeRun{c: c, args: args, noted: map[[2]*Term]bool{}}
		e.reqStack = append(e.reqStack, reqFrame{})
		e.spec++
		_, ns := e.callFn(c.Fn, args, nil, st, token.NoPos)
		e.spec--
		if ns == nil {
			res.Err = "the contract's precondition is contradictory, or its function never returns"
			return
		}
		if !e.safe.active {
			res.Err = "the contract does not call its function"
			return
		}
		res.reachGuard(ns.guard)
		e.finish(res)
		if len(e.obl) == 0 {
			e.oblige("ensures", "nothing can fail", &State{guard: True}, True, token.NoPos)
			res.Obl = e.obl
		}
		return
	}
	// equational contract
	base := st.guard
	e.spec++
	e.reqStack = append(e.reqStack, reqFrame{})
	sv, ss := e.callFn(c.Fn, args, nil, st, token.NoPos)
	e.spec--
	e.reqStack = e.reqStack[:0]
	sexits := e.exits
	e.exits = nil
	var req *Term = False
	if ss != nil {
		req = ss.guard
	}
	for _, x := range sexits {
		req = mkOr(req, x.guard)
	}
	if req == False && caseOf != nil {
		return
	}
	if req == False {
		res.Err = "the contract's precondition is contradictory"
		return
	}
	res.reachGuard(req)
	st2 := st.clone()
	st2.guard = req
	if lock != nil {
		st2.guard = True
		if e.base != nil {
			st2.guard = e.base
		}
		base = nil
		lock.phase, lock.n = 1, 0
	}
	fv, fs := e.callFn(c.Target, args, nil, st2, token.NoPos)
	e.curFn = c.Target
	if lock != nil {
		if lock.again {
			return
		}
		e.lockObligations(c)
	}
	// abnormal exits
	ge := func(xs []*State) *Term {
		r := False
		for _, x := range xs {
			r = mkOr(r, x.guard)
		}
		return r
	}
	if len(sexits) > 0 || len(e.exits) > 0 {
		e.oblige("ensures", "exits exactly when the contract says", &State{guard: req}, mkEq(ge(e.exits), ge(sexits)), c.Fn.Pos())
		if len(sexits) > 0 && len(e.exits) > 0 {
			a, b := e.mergeAll(e.exits), e.mergeAll(sexits)
			e.compareStates(a, b, a.guard, "at exit: ", nil)
		}
	}
	if ss != nil && fs == nil {
		e.oblige("ensures", "returns", &State{guard: ss.guard}, False, c.Fn.Pos())
	}
	if ss != nil && fs != nil {
		g := mkAnd(fs.guard, ss.guard)
		if lock == nil && len(sexits) == 0 && len(e.exits) == 0 {
			// every path returns: the paths together are the precondition
			g = base
		}
		n := c.Target.Signature.Results().Len()
		for i := 0; i < n; i++ {
			a, b := fv, sv
			if n > 1 {
				a, b = fv.(Tuple)[i], sv.(Tuple)[i]
			}
			t := c.Target.Signature.Results().At(i).Type()
			ta, tb := e.term(fs, a), e.term(ss, b)
			var cond *Term
			if sl, ok := t.Underlying().(*types.Slice); ok && !c.Flags["exact"] {
				// nil and empty results are interchangeable (call sites do not learn which one it is)
				cond = e.deepEqSeq(fs, ss, mkSlSeq(ta), mkSlSeq(tb), sl.Elem(), 0)
			} else {
				cond = e.deepEq(fs, ss, ta, tb, t, 0)
			}
			if lt := c.Target.Signature.Results().At(n - 1).Type(); n > 1 && i < n-1 && isErrorType(lt) && !c.Flags["exact"] {
				// next to an error the other results are unspecified (call sites see an unknown value)
				cond = mkOr(mkNot(mkEq(e.term(ss, sv.(Tuple)[n-1]), IfNil)), cond)
			}
			nm := "result"
			if n > 1 {
				nm = fmt.Sprintf("result %d", i+1)
			}
			e.oblige("ensures", nm+" equals "+c.Name, &State{guard: g}, cond, c.Fn.Pos())
		}
		if lock == nil || !c.Flags["nostate"] {
			n := len(e.obl)
			e.compareStates(fs, ss, g, "", e.errorResult(c, ss, sv))
			if n == len(e.obl) && n == 0 && !c.Flags["nostate"] {
				// both sides wrote the very same state: the comparison is an identity
				e.oblige("ensures", "same effects", &State{guard: g}, True, token.NoPos)
			}
		}
	}
	e.finish(res)
	return
}

func (e *Exec) finish(res *ContractResult) {
	f := mkAnd(e.facts...)
	for _, o := range e.obl {
		if e.safe != nil {
			// what follows from a later call's contract holds only if the obligations before it do
			o.Guard = mkAnd(o.Guard, mkAnd(e.facts[:o.nf]...))
			continue
		}
		o.Guard = mkAnd(o.Guard, f)
	}
	res.Obl = e.obl
	if g, ok := reachGuards[res.C]; ok {
		reachGuards[res.C] = mkAnd(g, f)
	}
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// relaxed forgets what a contract does not promise: results next to an error, and whether an empty slice is nil.
func (e *Exec) relaxed(c *Contract, st *State, v Val, args []Val) Val {
	sig := c.Target.Signature
	n := sig.Results().Len()
	if n == 0 || v == nil || c.Flags["exact"] {
		return v
	}
	one := func(i int, x Val, err *Term) Val {
		t := sig.Results().At(i).Type()
		_, sl := t.Underlying().(*types.Slice)
		if !sl && err == nil {
			return x
		}
		if _, ok := x.(*Term); !ok {
			return x
		}
		var ts []*Term
		for _, a := range args {
			ts = append(ts, e.term(st, a))
		}
		xt := x.(*Term)
		if sl {
			xt = mkSl(mkApp(fmt.Sprintf("nilness:%s:%d", c.Name, i), BoolS, ts...), mkSlSeq(xt))
		}
		if err != nil {
			xt = mkIte(mkEq(err, IfNil), xt, mkApp(fmt.Sprintf("onerr:%s:%d", c.Name, i), xt.sort, ts...))
		}
		return xt
	}
	if n == 1 {
		return one(0, v, nil)
	}
	tp := append(Tuple{}, v.(Tuple)...)
	var err *Term
	if isErrorType(sig.Results().At(n - 1).Type()) {
		err = e.term(st, tp[n-1])
		if err == IfNil {
			err = nil
		}
	}
	for i := range tp {
		if i == n-1 && err != nil {
			continue
		}
		tp[i] = one(i, tp[i], err)
	}
	return tp
}

// errorResult is the error a call returns as its last result, nil when its type has none or it never fails.
func (e *Exec) errorResult(c *Contract, st *State, v Val) *Term {
	sig := c.Target.Signature
	n := sig.Results().Len()
	if n == 0 || v == nil || c.Flags["exact"] || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	if tp, ok := v.(Tuple); ok {
		v = tp[n-1]
	}
	if err := e.term(st, v); err != IfNil {
		return err
	}
	return nil
}

// relaxState forgets, after a call that failed, the state of the objects that a successful call changes.
func (e *Exec) relaxState(c *Contract, pre map[string]*Term, nref int64, st *State, v Val, args []Val) {
	err := e.errorResult(c, st, v)
	if err == nil {
		return
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, e.term(st, a))
	}
	for _, k := range sortedKeys(st.heap) {
		x := st.heap[k]
		y := pre[k]
		if y == nil {
			y = mkVar("H0:"+k, x.sort)
		}
		if x == y {
			continue
		}
		var refs []*Term
		if heapRefs2(x, map[*Term]bool{}, &refs, y) && e.allNew(refs, nref) {
			continue
		}
		st.heap[k] = mkIte(mkEq(err, IfNil), x, mkApp("onerrstate:"+c.Name+":"+k, x.sort, append([]*Term{y}, ts...)...))
	}
}

// allNew: every reference was allocated after the given point.
func (e *Exec) allNew(refs []*Term, nref int64) bool {
	for _, r := range refs {
		if !e.bodyRef(r, snap{nref: nref}) {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]*Term) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *Exec) mergeAll(xs []*State) *State {
	s, _ := e.mergeStates(xs)
	return s
}

// compareStates: same effects on pre-existing objects and the same history of external effects.
// Next to an error (err) the objects that the contract changes are left in an unspecified state.
func (e *Exec) compareStates(a, b *State, g *Term, pre string, err *Term) {
	e.compareStatesKeys(a, b, g, pre, err, nil)
}

func (e *Exec) compareStatesKeys(a, b *State, g *Term, pre string, err *Term, only map[string]bool) {
	if ta, tb := e.traceOf(a), e.traceOf(b); ta != tb {
		e.oblige("ensures", pre+"same external effects", &State{guard: g}, mkEq(ta, tb), token.NoPos)
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for _, k := range sortedKeysB(keys) {
		if only != nil && !only[k] {
			continue
		}
		e.compareHeaps(a, b, k, e.heapAt(a, k, nil), e.heapAt(b, k, nil), g, pre, err)
	}
}

// compareHeaps states that the two heaps of objects of type k agree on every object that both sides can know.
func (e *Exec) compareHeaps(a, b *State, k string, x, y, g *Term, pre string, err *Term) {
	if x == y || g == False {
		return
	}
	h0 := mkVar("H0:"+k, x.sort)
	if h := e.hbase[k]; h != nil {
		h0 = h
	}
	if e.lock != nil {
		// behind loops that were cut together, the common state may be that of one of the loops
		bs := map[*Term]bool{}
		heapBases(x, map[*Term]bool{}, bs)
		heapBases(y, map[*Term]bool{}, bs)
		if len(bs) == 1 {
			for t := range bs {
				if t.op == OVar && strings.HasPrefix(t.name, "lk") {
					h0 = t
				}
			}
		} else if x.op == OIte && y.op == OIte && x.args[0] == y.args[0] {
			c := x.args[0]
			e.compareHeaps(a, b, k, x.args[1], y.args[1], mkAnd(g, c), pre, err)
			e.compareHeaps(a, b, k, x.args[2], y.args[2], mkAnd(g, mkNot(c)), pre, err)
			return
		}
	}
	var refs []*Term
	seen := map[*Term]bool{}
	ok := heapRefs2(x, seen, &refs, h0) && heapRefs2(y, seen, &refs, h0)
	if !ok {
		e.oblige("ensures", pre+"same effect on objects of type "+k, &State{guard: g}, mkEq(x, y), token.NoPos)
		return
	}
	var cs []*Term
	for _, r := range refs {
		if r.op == OFresh || r.op == OInt && r.ival.Sign() < 0 {
			continue
		}
		vx, vy := mkSelect(x, r), mkSelect(y, r)
		t := e.heapT[k]
		if t != nil && e.lock != nil && e.lock.cmp && !pure(t, 0) {
			cs = append(cs, e.deepEq(a, b, vx, vy, t, 0))
		} else {
			cs = append(cs, mkEq(vx, vy))
		}
	}
	cond := mkAnd(cs...)
	var wrote []*Term
	if err != nil && (!heapRefs2(y, map[*Term]bool{}, &wrote, h0) || !e.allNew(wrote, 0)) {
		cond = mkOr(mkNot(mkEq(err, IfNil)), cond)
	}
	e.oblige("ensures", pre+"same effect on objects of type "+k, &State{guard: g}, cond, token.NoPos)
}

func heapBases(h *Term, seen, out map[*Term]bool) {
	if seen[h] {
		return
	}
	seen[h] = true
	switch h.op {
	case OStore, OHFill:
		heapBases(h.args[0], seen, out)
	case OIte:
		heapBases(h.args[1], seen, out)
		heapBases(h.args[2], seen, out)
	default:
		out[h] = true
	}
}

// heapRefs2 collects the references written between h0 and h (fills at fresh references are ignored).
func heapRefs2(h *Term, seen map[*Term]bool, out *[]*Term, stop *Term) bool {
	if h == stop || seen[h] {
		return true
	}
	seen[h] = true
	switch h.op {
	case OStore:
		*out = append(*out, h.args[1])
		return heapRefs2(h.args[0], seen, out, stop)
	case OIte:
		return heapRefs2(h.args[1], seen, out, stop) && heapRefs2(h.args[2], seen, out, stop)
	case OHFill:
		return h.args[2].args[0].op == OFresh && heapRefs2(h.args[0], seen, out, stop)
	}
	return false
}

func (r *ContractResult) reachGuard(g *Term) {

	r.Reach = "?"
	reachGuards[r.C] = g
}

var reachGuards = map[*Contract]*Term{}

func keysB(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

func short(s string, n int) string {
	s = strings.Replace(s, modPath+"/", "", -1)
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
