// Symbolic execution of go/ssa functions.
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

type pe struct {
	field int   // >=0: struct field
	idx   *Term // otherwise array index
}

// Addr is the address of a part of an object.
type Addr struct {
	base  *Term // reference of the object (nil when sl != nil)
	baseT types.Type
	path  []pe
	// element of a slice value
	sl   *Term
	idx  *Term
	elT  types.Type
	prov *Addr // where the slice value was loaded from (stores go there)
	cell *CellSl
}

// CellSl is a slice value backed by an array cell of this activation.
type CellSl struct {
	ref *Term
	arr types.Type // array type (elem)
	elT types.Type
}

type Clo struct {
	fn    *ssa.Function
	binds []Val
	bound Val // bound method receiver
}

type State struct {
	guard *Term
	heap  map[string]*Term
	cells map[*Term]*Term
	trace *Term
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Term]*Term, len(s.cells)), trace: s.trace}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

type Oblig struct {
	Name  string
	Kind  string
	Pos   string
	Fn    string
	Guard *Term
	Cond  *Term
	Depth int
	nf    int // facts known when the obligation arose
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

type Exec struct {
	lemmaMode int // 1, 2: assuming the preconditions, and the conclusions, of a lemma
	total     int // inside the definition of an opaque contract helper
	P         *Program
	obl       []*Oblig
	oblSeen   map[[2]*Term]bool
	nref      int64
	cellT     map[*Term]types.Type
	flagData  map[*Term]*Term // option parser -> its structure
	cellName  map[*Term]string
	depth     int
	stack     []*ssa.Function
	globals   map[*ssa.Global]*Term
	assume    map[string]bool // assumptions used, for the evidence
	inlined   map[string]bool
	viaC      map[string]bool // calls decided by contract
	exits     []*State
	catching  int
	root      *Contract
	callSeq   int
	iters     []*Term // enclosing loop counters (free variables)
	escaped   map[*Term]bool
	curFn     *ssa.Function
	runtimeT  []types.Type
	instrs    int
	noSum     string
	spec      int // >0 while executing ghost code: no run-time obligations
	goal      []*Term

	heapSorts map[string]*Sort
	heapT     map[string]types.Type
	reqStack  []reqFrame
	facts     []*Term   // preconditions that are not literals
	lost      int       // paths that ended, or were restricted by a precondition
	base      *Term     // the case being verified
	reqs      []reqFact // preconditions assumed inside loops
	implicit  map[string]bool
	callPos   token.Pos
	lock      *lockRun
	hbase     map[string]*Term // heaps that state comparisons start from
	safe      *safeRun
	safeN     int
}

func (e *Exec) unsup(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if e.curFn != nil {
		msg += " (in " + e.curFn.String() + ")"
	}
	panic(unsupported{msg})
}

func (e *Exec) newRef() *Term {
	e.nref++
	return mkInt(-e.nref)
}

// ---------- sorts of Go types

var tnames = map[string]types.Type{}

func tname(t types.Type) string {
	s := types.TypeString(t, nil)
	if _, ok := tnames[s]; !ok {
		tnames[s] = t
	}
	return s
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Info()&types.IsFloat != 0:
			return FltS
		case u.Kind() == types.UntypedNil:
			return IntS
		}
		return OpqOf(tname(t))
	case *types.Pointer, *types.Map, *types.Chan:
		return IntS
	case *types.Signature:
		return OpqOf("func")
	case *types.Slice:
		return SliceOf(seqSortOf(u.Elem()))
	case *types.Array:
		return seqSortOf(u.Elem())
	case *types.Interface:
		return IfaceS
	case *types.Struct:
		key := "S:" + tname(t)
		if s, ok := sortTab[key]; ok {
			return s
		}
		s := &Sort{K: SStruct, key: key, Name: tname(t), GoT: t}
		sortTab[key] = s
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, sortOf(u.Field(i).Type()))
			s.FNames = append(s.FNames, u.Field(i).Name())
		}
		return s
	}
	return OpqOf(tname(t))
}

func seqSortOf(el types.Type) *Sort {
	if isByte(el) {
		return StrS
	}
	return SeqOf(sortOf(el))
}

func zeroOf(t types.Type) *Term { return zeroSort(sortOf(t), t) }
func zeroSort(s *Sort, t types.Type) *Term {
	switch s.K {
	case SBool:
		return False
	case SInt:
		return mkInt(0)
	case SStr:
		if a, ok := t.Underlying().(*types.Array); ok {
			return mkStr(strings.Repeat("\x00", int(a.Len())))
		}
		return mkStr("")
	case SFlt:
		return mkApp("flt:0", FltS)
	case SIface:
		return IfNil
	case SSlice:
		return mkSl(True, mkEmpty(s.Elem))
	case SStruct:
		st := t.Underlying().(*types.Struct)
		as := make([]*Term, st.NumFields())
		for i := range as {
			as[i] = zeroOf(st.Field(i).Type())
		}
		return mkMk(s, as...)
	case SSeq:
		if a, ok := t.Underlying().(*types.Array); ok {
			z := mkUnit(zeroOf(a.Elem()))
			if a.Len() > 4096 {
				return mkFlatMap(mkInt(a.Len()), mkLamRaw([]*Sort{IntS}, z))
			}
			ps := make([]*Term, a.Len())
			for i := range ps {
				ps[i] = z
			}
			return mkConcat(s, ps...)
		}
		return mkEmpty(s)
	}
	return mkApp("zero:"+s.key, s)
}

// ---------- obligations

func (e *Exec) oblige(kind, name string, st *State, cond *Term, pos token.Pos) {
	if e.lemmaMode > 0 {
		return
	}
	if e.spec > 0 && kind != "ensures" && kind != "pre" {
		// where a contract's expression is undefined, the contract says nothing: an implicit precondition
		if len(e.reqStack) == 0 || kind == "fatal" {
			return
		}
		c := under(st.guard, cond)
		if c == True {
			return
		}
		rf := e.reqStack[len(e.reqStack)-1]
		if e.total > 0 {
			e.addObl("pre", "contract helper is total: "+name, st, c, pos)
		} else if rf.check {
			e.addObl("pre", "domain of "+rf.what+": "+name, st, c, e.callPos)
			return
		} else {
			e.implicit[name+" "+e.P.pos(pos)] = true
		}
		e.presume(st, c)
		return
	}
	e.addObl(kind, name, st, cond, pos)
}

func (e *Exec) addObl(kind, name string, st *State, cond *Term, pos token.Pos) {
	c := under(st.guard, cond)
	if c == True && kind != "ensures" && kind != "pre" {
		return
	}
	key := [2]*Term{st.guard, c}
	if kind != "ensures" && e.oblSeen[key] {
		return
	}
	e.oblSeen[key] = true
	fn := ""
	if e.curFn != nil {
		fn = e.curFn.String()
	}
	e.obl = append(e.obl, &Oblig{Name: name, Kind: kind, Pos: e.P.pos(pos), Fn: fn, Guard: st.guard, Cond: c, nf: len(e.facts)})
}

// ---------- memory

func (e *Exec) heapOf(st *State, t types.Type) *Term {
	k := tname(t)
	e.heapT[k] = t
	if h, ok := st.heap[k]; ok {
		return h
	}
	h := mkVar("H0:"+k, ArrOf(sortOf(t)))
	e.heapSorts[k] = h.sort
	st.heap[k] = h
	return h
}

func (e *Exec) objLoad(st *State, base *Term, t types.Type) *Term {
	switch base.op {
	case OInt:
		if base.ival.Sign() < 0 {
			if v, ok := st.cells[base]; ok {
				return v
			}
			if _, ok := e.cellT[base]; ok {
				return zeroOf(t)
			}
		}
		if base.ival.Sign() == 0 {
			return mkApp("ext:nilload:"+tname(t), sortOf(t))
		}
	case OIte:
		if base.args[1].op == OInt && base.args[1].ival.Sign() == 0 {
			return e.objLoad(st, base.args[2], t)
		}
		if base.args[2].op == OInt && base.args[2].ival.Sign() == 0 {
			return e.objLoad(st, base.args[1], t)
		}
		return mkIte(base.args[0], e.objLoad(st, base.args[1], t), e.objLoad(st, base.args[2], t))
	}
	v := mkSelect(e.heapOf(st, t), base)
	if e.safe != nil {
		e.noteObj(v, t)
	}
	return v
}

func (e *Exec) objStore(st *State, base *Term, t types.Type, v *Term) {
	switch base.op {
	case OInt:
		if base.ival.Sign() < 0 {
			st.cells[base] = v
			return
		}
		if base.ival.Sign() == 0 {
			return
		}
	case OIte:
		for i, c := range []*Term{base.args[0], mkNot(base.args[0])} {
			b := base.args[1+i]
			if b.op == OInt && b.ival.Sign() == 0 {
				continue
			}
			old := e.objLoad(st, b, t)
			e.objStore(st, b, t, mkIte(c, v, old))
		}
		return
	}
	st.heap[tname(t)] = mkStore(e.heapOf(st, t), base, v)
}

func (e *Exec) nilCheck(st *State, base *Term, pos token.Pos) {
	if base.op == OInt && base.ival.Sign() < 0 || base.op == OFresh {
		return
	}
	e.oblige("nil", "nil dereference", st, mkNot(mkEq(base, mkInt(0))), pos)
}

func project(v *Term, t types.Type, path []pe) (*Term, types.Type) {
	for _, p := range path {
		if p.idx == nil {
			st := t.Underlying().(*types.Struct)
			v = mkSel(v, p.field)
			t = st.Field(p.field).Type()
		} else {
			a := t.Underlying().(*types.Array)
			if v.sort == StrS {
				v = mkCode(v, p.idx)
			} else {
				v = mkNth(v, p.idx)
			}
			t = a.Elem()
		}
	}
	return v, t
}

func update(v *Term, t types.Type, path []pe, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx == nil {
		st := t.Underlying().(*types.Struct)
		n := st.NumFields()
		as := make([]*Term, n)
		for i := 0; i < n; i++ {
			as[i] = mkSel(v, i)
		}
		as[p.field] = update(as[p.field], st.Field(p.field).Type(), path[1:], nv)
		return mkMk(v.sort, as...)
	}
	a := t.Underlying().(*types.Array)
	if v.sort == StrS {
		return strUpd(v, p.idx, nv)
	}
	old := mkNth(v, p.idx)
	return mkUpd(v, p.idx, update(old, a.Elem(), path[1:], nv))
}
func strUpd(v, i, c *Term) *Term {
	n := mkLen(v)
	i1 := mkAdd(i, mkInt(1))
	return mkConcat(StrS, mkSub(v, mkInt(0), i), mkFromCode(c), mkSub(v, i1, mkSubI(n, i1)))
}

func (e *Exec) load(st *State, a Val, t types.Type, pos token.Pos) Val {
	switch a := a.(type) {
	case *Term:
		e.nilCheck(st, a, pos)
		return e.objLoad(st, a, t)
	case *Addr:
		return e.loadAddr(st, a, pos)
	}
	e.unsup("load through %T", a)
	return nil
}

func (e *Exec) loadAddr(st *State, a *Addr, pos token.Pos) *Term {
	if a.cell != nil {
		arr := st.cells[a.cell.ref]
		var v *Term
		if arr.sort == StrS {
			v = mkCode(arr, a.idx)
		} else {
			v = mkNth(arr, a.idx)
		}
		r, _ := project(v, a.elT, a.path)
		return r
	}
	if a.sl != nil {
		s := mkSlSeq(a.sl)
		var v *Term
		if s.sort == StrS {
			v = mkCode(s, a.idx)
		} else {
			v = mkNth(s, a.idx)
		}
		r, _ := project(v, a.elT, a.path)
		return r
	}
	e.nilCheck(st, a.base, pos)
	v := e.objLoad(st, a.base, a.baseT)
	r, _ := project(v, a.baseT, a.path)
	return r
}

func (e *Exec) store(st *State, a Val, t types.Type, v *Term, pos token.Pos) {
	switch a := a.(type) {
	case *Term:
		e.nilCheck(st, a, pos)
		e.objStore(st, a, t, v)
		return
	case *Addr:
		if a.cell != nil {
			if e.escaped[a.cell.ref] && e.spec == 0 {
				e.assume["element stores after a slice was copied elsewhere are not seen by the copy ("+e.curFn.String()+")"] = true
			}
			arr := st.cells[a.cell.ref]
			if arr.sort == StrS {
				st.cells[a.cell.ref] = strUpd(arr, a.idx, v)
			} else {
				old := mkNth(arr, a.idx)
				st.cells[a.cell.ref] = mkUpd(arr, a.idx, update(old, a.elT, a.path, v))
			}
			return
		}
		if a.sl != nil {
			if a.prov == nil {
				e.unsup("store to element of a slice of unknown origin")
			}
			e.assume["an element store through a slice held in a local copy is modelled on that copy only; other holders of the same backing array are assumed not to depend on it ("+e.curFn.String()+")"] = true
			cur := e.loadAddr(st, a.prov, pos)
			s := mkSlSeq(cur)
			var ns *Term
			if s.sort == StrS {
				ns = strUpd(s, a.idx, v)
			} else {
				ns = mkUpd(s, a.idx, update(mkNth(s, a.idx), a.elT, a.path, v))
			}
			e.store(st, a.prov, nil, mkSl(mkSlNil(cur), ns), pos)
			return
		}
		e.nilCheck(st, a.base, pos)
		old := e.objLoad(st, a.base, a.baseT)
		e.objStore(st, a.base, a.baseT, update(old, a.baseT, a.path, v))
		return
	}
	e.unsup("store through %T", a)
}

// term converts a value to a term (snapshotting slices and interior pointers).
func (e *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *CellSl:
		e.escaped[v.ref] = true
		return mkSl(False, st.cells[v.ref])
	case *Addr:
		// interior pointer escaping as a value: a fresh object holding a copy
		var val *Term
		val = e.loadAddr(st, v, token.NoPos)
		if len(v.path) == 0 && v.sl == nil && v.cell == nil {
			return v.base
		}
		r := e.newRef()
		var t types.Type
		if v.sl != nil || v.cell != nil {
			_, t = project(val2zero(v), v.elT, v.path)
		} else {
			_, t = project(mkVar("~dummy", sortOf(v.baseT)), v.baseT, v.path)
		}
		e.cellT[r] = t
		st.cells[r] = val
		e.assume["a pointer to a part of an object that is stored or returned is modelled as a pointer to a copy (no later write through an alias)"] = true
		return r
	case *Clo:
		return mkApp("clo:"+v.fn.String(), OpqOf("func"))
	}
	e.unsup("value %T used as a term", v)
	return nil
}
func val2zero(v *Addr) *Term { return mkVar("~dummy", sortOf(v.elT)) }

// ---------- frames

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	ord    int
}

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loopInfo // by header
	inner   map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	closedM map[[2]*ssa.BasicBlock]bool
}

// closed: every path from d reaches b, within the same iteration of the loops around d.
func (fi *fnInfo) closed(d, b *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{d, b}
	if r, ok := fi.closedM[k]; ok {
		return r
	}
	r := true
	for l := fi.inner[d]; l != nil; l = l.parent {
		if !l.blocks[b] {
			r = false
		}
	}
	ld := fi.inner[d]
	seen := map[*ssa.BasicBlock]bool{b: true}
	var rec func(x *ssa.BasicBlock)
	rec = func(x *ssa.BasicBlock) {
		if len(x.Succs) == 0 {
			r = false
		}
		for _, s := range x.Succs {
			if ld != nil && (s == ld.header || !ld.blocks[s]) && s != b {
				r = false
			}
			if r && !seen[s] {
				seen[s] = true
				rec(s)
			}
		}
	}
	if r {
		rec(d)
	}
	fi.closedM[k] = r
	return r
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{closedM: map[[2]*ssa.BasicBlock]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fi.rpo {
		idx[b] = i
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if idx[s] <= idx[b] {
				if !s.Dominates(b) {
					e.unsup("irreducible control flow in %s", fn)
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].blocks) < len(ls[j].blocks) })
	for i, l := range ls {
		for b := range l.blocks {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
		for _, m := range ls[i+1:] {
			if m != l && m.blocks[l.header] {
				l.parent = m
				break
			}
		}
	}
	// ordinals by header position in rpo
	n := 0
	for _, b := range fi.rpo {
		if l := fi.loops[b]; l != nil {
			n++
			l.ord = n
		}
	}
	fnInfos[fn] = fi
	return fi
}

type edgeIn struct {
	pred *ssa.BasicBlock
	st   *State
	used bool
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	env    map[ssa.Value]Val
	in     map[*ssa.BasicBlock][]*edgeIn
	rets   []retInfo
	defers []deferInfo
	prov   map[ssa.Value]*Addr
	at     map[*ssa.BasicBlock]guardAt // path condition at the start of a block
}
type guardAt struct {
	g    *Term
	lost int
}
type retInfo struct {
	st  *State
	res []Val
}
type deferInfo struct {
	st   *State
	call *ssa.Defer
	args []Val
	recv Val // of an interface call
}

// region being executed: nil loop = whole function
type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func commonGuard(gs []*Term) (common *Term, rest []*Term) {
	cnt := map[*Term]int{}
	for _, g := range gs {
		for _, c := range conj(g) {
			cnt[c]++
		}
	}
	var com []*Term
	for _, c := range conj(gs[0]) {
		if cnt[c] == len(gs) {
			com = append(com, c)
		}
	}
	for _, g := range gs {
		var r []*Term
		for _, c := range conj(g) {
			if cnt[c] != len(gs) {
				r = append(r, c)
			}
		}
		rest = append(rest, mkAnd(r...))
	}
	return mkAnd(com...), rest
}

func (e *Exec) mergeVals(sts []*State, rest []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !valEq(vs[0], v) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if tp, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(tp))
		for i := range tp {
			sub := make([]Val, len(vs))
			for j := range vs {
				sub[j] = vs[j].(Tuple)[i]
			}
			out[i] = e.mergeVals(sts, rest, sub)
		}
		return out
	}
	ts := make([]*Term, len(vs))
	for i, v := range vs {
		ts[i] = e.term(sts[i], v)
	}
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = mkIte(rest[i], ts[i], r)
	}
	return r
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *CellSl:
		y, ok := b.(*CellSl)
		return ok && x.ref == y.ref
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !valEq(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *Addr:
		y, ok := b.(*Addr)
		if !ok || x.base != y.base || x.sl != y.sl || x.idx != y.idx || len(x.path) != len(y.path) || (x.cell == nil) != (y.cell == nil) {
			return false
		}
		if x.cell != nil && x.cell.ref != y.cell.ref {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func (e *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	gs := make([]*Term, len(sts))
	for i, s := range sts {
		gs[i] = s.guard
	}
	common, rest := commonGuard(gs)
	out := &State{guard: mkAnd(common, mkOr(rest...)), heap: map[string]*Term{}, cells: map[*Term]*Term{}}
	fold := func(get func(s *State) *Term) *Term {
		var r *Term
		for i := len(sts) - 1; i >= 0; i-- {
			v := get(sts[i])
			if v == nil {
				continue
			}
			if r == nil {
				r = v
			} else if r != v {
				r = mkIte(rest[i], v, r)
			}
		}
		return r
	}
	keys := map[string]bool{}
	cks := map[*Term]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
		for k := range s.cells {
			cks[k] = true
		}
	}
	for k := range keys {
		var srt *Sort
		for _, s := range sts {
			if h, ok := s.heap[k]; ok {
				srt = h.sort
			}
		}
		h0 := mkVar("H0:"+k, srt)
		out.heap[k] = fold(func(s *State) *Term {
			if h, ok := s.heap[k]; ok {
				return h
			}
			return h0
		})
	}
	for k := range cks {
		out.cells[k] = fold(func(s *State) *Term { return s.cells[k] })
	}
	out.trace = fold(func(s *State) *Term { return s.trace })
	return out, rest
}

// enter merges the incoming edges of block b (restricted to those recorded) and evaluates its phis.
func (e *Exec) enter(f *frame, b *ssa.BasicBlock) *State {
	ins := f.in[b]
	delete(f.in, b)
	var live []*edgeIn
	for _, i := range ins {
		if i.st.guard != False {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return nil
	}
	sts := make([]*State, len(live))
	for i, l := range live {
		sts[i] = l.st
	}
	st, rest := e.mergeStates(sts)
	if d := b.Idom(); d != nil && len(live) > 1 {
		// all the paths from d meet again here: together they are the paths that reached d
		if a, ok := f.at[d]; ok && a.lost == e.lost && f.fi.closed(d, b) {
			st.guard = a.g
		}
	}
	// phis
	usedPred := map[int]bool{}
	idxs := make([]int, len(live))
	for i, l := range live {
		idxs[i] = -1
		for j, p := range b.Preds {
			if p == l.pred && !usedPred[j] {
				idxs[i] = j
				usedPred[j] = true
				break
			}
		}
		if idxs[i] < 0 { // several recorded edges from the same predecessor (loop exits)
			for j, p := range b.Preds {
				if p == l.pred {
					idxs[i] = j
				}
			}
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(live))
		for i := range live {
			vs[i] = e.val(f, live[i].st, p.Edges[idxs[i]])
			if t, ok := vs[i].(*Term); ok {
				vs[i] = under(live[i].st.guard, t)
			}
		}
		phis = append(phis, p)
		vals = append(vals, e.mergeVals(sts, rest, vs))
	}
	// snapshots taken in mergeVals may have created cells in the incoming states
	for i := range live {
		for k, v := range live[i].st.cells {
			if _, ok := st.cells[k]; !ok {
				st.cells[k] = v
			}
		}
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	return st
}

func (e *Exec) pushEdge(f *frame, from, to *ssa.BasicBlock, st *State) {
	if st.guard == False {
		return
	}
	f.in[to] = append(f.in[to], &edgeIn{pred: from, st: st})
}

// runRegion executes the blocks of a region (loop body, or everything when l == nil) in reverse post-order, starting
// with the already entered state of start.
func (e *Exec) runRegion(f *frame, l *loopInfo, start *ssa.BasicBlock, st0 *State) (backs []*edgeIn, exits []exitEdge) {
	for _, b := range f.fi.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		var st *State
		if b == start {
			st = st0
		} else {
			if len(f.in[b]) == 0 {
				continue
			}
			if in := f.fi.loops[b]; in != nil && in != l {
				// nested loop: only when its parent is this region
				exs := e.runLoop(f, in)
				for _, x := range exs {
					if l != nil && x.to == l.header {
						backs = append(backs, &edgeIn{pred: x.from, st: x.st})
					} else if l != nil && !l.blocks[x.to] {
						exits = append(exits, x)
					} else {
						e.pushEdge(f, x.from, x.to, x.st)
					}
				}
				continue
			}
			st = e.enter(f, b)
			if st == nil {
				continue
			}
		}
		f.at[b] = guardAt{st.guard, e.lost}
		outs := e.block(f, b, st)
		for _, o := range outs {
			if o.st.guard == False {
				continue
			}
			switch {
			case l != nil && o.to == l.header:
				backs = append(backs, &edgeIn{pred: b, st: o.st})
			case l != nil && !l.blocks[o.to]:
				exits = append(exits, o)
			default:
				e.pushEdge(f, b, o.to, o.st)
			}
		}
	}
	return
}

// call executes fn on args; returns the merged result and state (nil state when the function never returns).
func (e *Exec) callFn(fn *ssa.Function, args []Val, binds []Val, st *State, pos token.Pos) (Val, *State) {
	if fn.Blocks == nil {
		e.unsup("no body for %s", fn)
	}
	e.depth++
	if e.depth > 60 {
		e.unsup("inlining too deep at %s", fn)
	}
	cnt := 0
	for _, s := range e.stack {
		if s == fn {
			cnt++
		}
	}
	if cnt > 2 {
		e.unsup("recursion in %s", fn)
	}
	e.stack = append(e.stack, fn)
	saved := e.curFn
	e.curFn = fn
	defer func() {
		e.depth--
		e.stack = e.stack[:len(e.stack)-1]
		e.curFn = saved
	}()
	f := &frame{fn: fn, fi: e.info(fn), env: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]*edgeIn{}, prov: map[ssa.Value]*Addr{}, at: map[*ssa.BasicBlock]guardAt{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
	}
	if f.fi.loops[fn.Blocks[0]] != nil {
		e.unsup("loop at function entry")
	}
	lost := e.lost
	e.runRegion(f, nil, fn.Blocks[0], st.clone())
	if len(f.rets) == 0 {
		return nil, nil
	}
	sts := make([]*State, len(f.rets))
	for i, r := range f.rets {
		sts[i] = r.st
	}
	ms, rest := e.mergeStates(sts)
	if lost == e.lost {
		ms.guard = st.guard
	}
	n := fn.Signature.Results().Len()
	res := make(Tuple, n)
	for i := 0; i < n; i++ {
		vs := make([]Val, len(f.rets))
		for j := range f.rets {
			vs[j] = f.rets[j].res[i]
		}
		res[i] = e.mergeVals(sts, rest, vs)
	}
	for _, s := range sts {
		for k, v := range s.cells {
			if _, ok := ms.cells[k]; !ok {
				ms.cells[k] = v
			}
		}
	}
	if n == 1 {
		return res[0], ms
	}
	return res, ms
}

func (e *Exec) val(f *frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &Clo{fn: v}
	case *ssa.Global:
		return e.globalRef(st, v)
	case *ssa.Builtin:
		return v
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	e.unsup("undefined register %s %s", v.Name(), v)
	return nil
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(t) == FltS {
			return mkApp("flt:"+c.Value.ExactString(), FltS)
		}
		i, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			e.unsup("const %s", c)
		}
		return mkBig(i)
	case constant.Float:
		if sortOf(t) == IntS {
			i, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if ok {
				return mkBig(i)
			}
		}
		return mkApp("flt:"+c.Value.ExactString(), FltS)
	}
	e.unsup("const %s", c)
	return nil
}

// ---------- instructions

func (e *Exec) block(f *frame, b *ssa.BasicBlock, st *State) []exitEdge {
	for _, ins := range b.Instrs {
		e.instrs++
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.term(st, e.val(f, st, ins.Cond))
			c = under(st.guard, c)
			t, fl := st.clone(), st
			t.guard = mkAnd(st.guard, c)
			fl.guard = mkAnd(st.guard, mkNot(c))
			var outs []exitEdge
			if c != False {
				outs = append(outs, exitEdge{b, b.Succs[0], t})
			}
			if c != True {
				outs = append(outs, exitEdge{b, b.Succs[1], fl})
			}
			return outs
		case *ssa.Jump:
			return []exitEdge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var res []Val
			for _, r := range ins.Results {
				res = append(res, e.val(f, st, r))
			}
			f.rets = append(f.rets, retInfo{st, res})
			return nil
		case *ssa.Panic:
			e.lost++
			e.oblige("panic", "explicit panic reachable", st, False, ins.Pos())
			return nil
		case *ssa.RunDefers:
			for i := len(f.defers) - 1; i >= 0; i-- {
				d := f.defers[i]
				st = e.runDefer(f, st, d)
				if st == nil {
					return nil
				}
			}
		default:
			st = e.instr(f, b, ins, st)
			if st == nil {
				return nil
			}
		}
	}
	return nil
}

func impliesConj(a, b *Term) bool {
	has := map[*Term]bool{}
	for _, c := range conj(a) {
		has[c] = true
	}
	for _, c := range conj(b) {
		if !has[c] {
			return false
		}
	}
	return true
}

func (e *Exec) runDefer(f *frame, st *State, d deferInfo) *State {
	// executed under the condition that the defer statement was reached
	switch under(st.guard, d.st.guard) {
	case True:
	case False:
		return st
	default:
		if under(d.st.guard, st.guard) == False {
			return st
		}
		if !impliesConj(st.guard, d.st.guard) {
			e.unsup("deferred call that may not have been reached")
		}
	}
	if d.recv != nil {
		_, ns := e.invoke(f, st, e.term(st, d.recv), d.call.Call.Method, d.args, d.call.Pos(), &d.call.Call)
		return ns
	}
	ret := &ssa.Call{Call: d.call.Call}
	_, ns := e.callCommon(f, st, &ret.Call, d.args, d.call.Pos(), nil)
	return ns
}

func (e *Exec) instr(f *frame, b *ssa.BasicBlock, ins ssa.Instruction, st *State) *State {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		r := e.newRef()
		e.cellT[r] = t
		st.cells[r] = zeroOf(t)
		f.env[ins] = r
		e.cellName[r] = ins.Comment
	case *ssa.Store:
		v := e.val(f, st, ins.Val)
		a := e.val(f, st, ins.Addr)
		if tt, ok := a.(*Term); ok {
			// keep closures and array backed slices in local cells symbolic
			if cv, ok := v.(*Clo); ok {
				st.cells[tt] = mkApp("clo:"+cv.fn.String(), OpqOf("func"))
				e.P.cloTab[st.cells[tt]] = cv
				return st
			}
		}
		e.store(st, a, ins.Val.Type(), e.term(st, v), ins.Pos())
	case *ssa.UnOp:
		e.unop(f, st, ins)
	case *ssa.BinOp:
		x := e.term(st, e.val(f, st, ins.X))
		y := e.term(st, e.val(f, st, ins.Y))
		f.env[ins] = e.binop(st, ins.Op, x, y, ins.X.Type(), ins.Type(), ins.Pos())
	case *ssa.FieldAddr:
		x := e.val(f, st, ins.X)
		t := ins.X.Type().Underlying().(*types.Pointer).Elem()
		switch x := x.(type) {
		case *Term:
			f.env[ins] = &Addr{base: x, baseT: t, path: []pe{{field: ins.Field}}}
		case *Addr:
			n := *x
			n.path = append(append([]pe{}, x.path...), pe{field: ins.Field})
			f.env[ins] = &n
		default:
			e.unsup("fieldaddr of %T", x)
		}
	case *ssa.Field:
		f.env[ins] = mkSel(e.term(st, e.val(f, st, ins.X)), ins.Field)
	case *ssa.IndexAddr:
		e.indexAddr(f, st, ins)
	case *ssa.Index:
		x := e.term(st, e.val(f, st, ins.X))
		i := e.term(st, e.val(f, st, ins.Index))
		s := x
		e.oblige("bounds", "index out of range", st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(s))), ins.Pos())
		if s.sort == StrS {
			f.env[ins] = mkCode(s, i)
		} else {
			f.env[ins] = mkNth(s, i)
		}
	case *ssa.Lookup:
		e.lookup(f, st, ins)
	case *ssa.Slice:
		e.slice(f, st, ins)
	case *ssa.MakeSlice:
		n := e.term(st, e.val(f, st, ins.Len))
		el := ins.Type().Underlying().(*types.Slice).Elem()
		e.oblige("bounds", "makeslice length", st, mkLe(mkInt(0), n), ins.Pos())
		r := e.newRef()
		var init *Term
		if isByte(el) {
			init = mkFlatMap(n, mkLamRaw([]*Sort{IntS}, mkStr("\x00")))
		} else {
			init = mkFlatMap(n, mkLamRaw([]*Sort{IntS}, mkUnit(zeroOf(el))))
		}
		e.cellT[r] = types.NewArray(el, 0)
		st.cells[r] = init
		f.env[ins] = &CellSl{ref: r, elT: el}
	case *ssa.MakeInterface:
		f.env[ins] = e.mkIface(st, ins.X.Type(), e.val(f, st, ins.X))
	case *ssa.ChangeInterface:
		f.env[ins] = e.val(f, st, ins.X)
	case *ssa.ChangeType:
		f.env[ins] = e.convertNamed(st, e.val(f, st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Convert:
		f.env[ins] = e.convert(st, e.term(st, e.val(f, st, ins.X)), ins.X.Type(), ins.Type())
	case *ssa.TypeAssert:
		e.typeAssert(f, st, ins)
	case *ssa.Extract:
		t, ok := e.val(f, st, ins.Tuple).(Tuple)
		if !ok {
			e.unsup("extract from %T", e.val(f, st, ins.Tuple))
		}
		f.env[ins] = t[ins.Index]
	case *ssa.MakeClosure:
		c := &Clo{fn: ins.Fn.(*ssa.Function)}
		for _, bnd := range ins.Bindings {
			c.binds = append(c.binds, e.val(f, st, bnd))
		}
		f.env[ins] = c
	case *ssa.Call:
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, e.val(f, st, a))
		}
		r, ns := e.callCommon(f, st, &ins.Call, args, ins.Pos(), ins)
		if ns == nil {
			return nil
		}
		f.env[ins] = r
		return ns
	case *ssa.Defer:
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, e.val(f, st, a))
		}
		var recv Val
		if ins.Call.IsInvoke() {
			recv = e.val(f, st, ins.Call.Value)
		}
		f.defers = append(f.defers, deferInfo{st: st.clone(), call: ins, args: args, recv: recv})
	case *ssa.MakeMap:
		r := e.newRef()
		e.cellT[r] = ins.Type()
		mt := ins.Type().Underlying().(*types.Map)
		st.cells[r] = e.emptyMap(mt)
		f.env[ins] = r
	case *ssa.MapUpdate:
		e.mapUpdate(f, st, ins)
	default:
		e.unsup("instruction %T: %s", ins, ins)
	}
	return st
}

func (e *Exec) unop(f *frame, st *State, ins *ssa.UnOp) {
	x := e.val(f, st, ins.X)
	switch ins.Op {
	case token.MUL:
		t := ins.Type()
		v := e.load(st, x, t, ins.Pos())
		if vt, ok := v.(*Term); ok && vt.op == OApp && strings.HasPrefix(vt.name, "clo:") {
			if c, ok := e.P.cloTab[vt]; ok {
				f.env[ins] = c
				return
			}
		}
		f.env[ins] = v
		if _, ok := t.Underlying().(*types.Slice); ok {
			switch a := x.(type) {
			case *Addr:
				f.prov[ins] = a
			case *Term:
				f.prov[ins] = &Addr{base: a, baseT: t}
			}
		}
	case token.NOT:
		f.env[ins] = mkNot(e.term(st, x))
	case token.SUB:
		t := e.term(st, x)
		if t.sort == FltS {
			f.env[ins] = mkApp("fneg", FltS, t)
		} else {
			f.env[ins] = mkNeg(t)
		}
	case token.XOR:
		f.env[ins] = mkApp("bitnot", IntS, e.term(st, x))
	default:
		e.unsup("unop %s", ins.Op)
	}
}

func (e *Exec) binop(st *State, op token.Token, x, y *Term, xt, rt types.Type, pos token.Pos) *Term {
	s := x.sort
	switch op {
	case token.EQL:
		return e.goEq(st, x, y, xt, pos)
	case token.NEQ:
		return mkNot(e.goEq(st, x, y, xt, pos))
	}
	switch s {
	case StrS:
		switch op {
		case token.ADD:
			return mkConcat(StrS, x, y)
		case token.LSS:
			return mkApp("strlt", BoolS, x, y)
		case token.GTR:
			return mkApp("strlt", BoolS, y, x)
		case token.LEQ:
			return mkNot(mkApp("strlt", BoolS, y, x))
		case token.GEQ:
			return mkNot(mkApp("strlt", BoolS, x, y))
		}
	case IntS:
		switch op {
		case token.ADD:
			return e.wrap(mkAdd(x, y), rt)
		case token.SUB:
			return e.wrap(mkSubI(x, y), rt)
		case token.MUL:
			return e.wrap(mkMul(x, y), rt)
		case token.LSS:
			return mkLt(x, y)
		case token.LEQ:
			return mkLe(x, y)
		case token.GTR:
			return mkLt(y, x)
		case token.GEQ:
			return mkLe(y, x)
		case token.QUO, token.REM:
			e.oblige("div", "division by zero", st, mkNot(mkEq(y, mkInt(0))), pos)
			if x.op == OInt && y.op == OInt && y.ival.Sign() != 0 {
				if op == token.QUO {
					return mkBig(new(big.Int).Quo(x.ival, y.ival))
				}
				return mkBig(new(big.Int).Rem(x.ival, y.ival))
			}
			if op == token.QUO {
				return mkApp("quo", IntS, x, y)
			}
			return mkApp("rem", IntS, x, y)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return bitop(op, x, y, rt)
		}
	case FltS:
		switch op {
		case token.LSS:
			return mkApp("flt<", BoolS, x, y)
		case token.GTR:
			return mkApp("flt<", BoolS, y, x)
		}
		return mkApp("f"+op.String(), FltS, x, y)
	case BoolS:
		switch op {
		case token.AND:
			return mkAnd(x, y)
		case token.OR:
			return mkOr(x, y)
		}
	}
	e.unsup("binop %s on %s", op, s)
	return nil
}

func bitop(op token.Token, x, y *Term, rt types.Type) *Term {
	if x.op == OInt && y.op == OInt {
		z := new(big.Int)
		switch op {
		case token.AND:
			return mkBig(z.And(x.ival, y.ival))
		case token.OR:
			return mkBig(z.Or(x.ival, y.ival))
		case token.XOR:
			return mkBig(z.Xor(x.ival, y.ival))
		case token.AND_NOT:
			return mkBig(z.AndNot(x.ival, y.ival))
		case token.SHL:
			return mkBig(z.Lsh(x.ival, uint(y.ival.Int64())))
		case token.SHR:
			return mkBig(z.Rsh(x.ival, uint(y.ival.Int64())))
		}
	}
	if x.op == OIte && y.op == OInt && (x.args[1].op == OInt || x.args[2].op == OInt) {
		return mkIte(x.args[0], bitop(op, x.args[1], y, rt), bitop(op, x.args[2], y, rt))
	}
	if op == token.AND && x.op == OInt {
		x, y = y, x
	}
	if op == token.AND && y.op == OInt && y.ival.Sign() >= 0 {
		// a mask of few bits: the sum of the bits
		n, t := 0, mkInt(0)
		for k := 0; k < y.ival.BitLen(); k++ {
			if y.ival.Bit(k) == 1 {
				n++
				t = mkAdd(t, mkIte(mkApp("bit", BoolS, x, mkInt(int64(k))), mkBig(new(big.Int).Lsh(big1, uint(k))), mkInt(0)))
			}
		}
		if n <= 4 {
			return t
		}
	}
	switch op {
	case token.SHL:
		if y.op == OInt && y.ival.IsInt64() {
			return mkMul(mkBig(new(big.Int).Lsh(big1, uint(y.ival.Int64()))), x)
		}
	case token.AND, token.OR, token.XOR:
		if x.id > y.id {
			x, y = y, x
		}
		if op == token.AND && x == y {
			return x
		}
	}
	return mkApp("bit"+op.String(), IntS, x, y)
}

// wrap: integers are mathematical, except that small unsigned types wrap explicitly.
func (e *Exec) wrap(t *Term, rt types.Type) *Term {
	if t.op == OInt {
		return wrapConst(t, rt)
	}
	return t
}
func wrapConst(t *Term, rt types.Type) *Term {
	b, ok := rt.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	bits := map[types.BasicKind]uint{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}[b.Kind()]
	if bits > 0 {
		m := new(big.Int).Lsh(big1, bits)
		return mkBig(new(big.Int).Mod(t.ival, m))
	}
	bits = map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64}[b.Kind()]
	if bits > 0 {
		m := new(big.Int).Lsh(big1, bits)
		v := new(big.Int).Mod(t.ival, m)
		if v.Bit(int(bits)-1) == 1 {
			v.Sub(v, m)
		}
		return mkBig(v)
	}
	return t
}

func (e *Exec) goEq(st *State, x, y *Term, t types.Type, pos token.Pos) *Term {
	if x.sort != y.sort {
		// comparison of a slice / map / func with nil
		if x.sort.K == SSlice {
			return mkSlNil(x)
		}
		e.unsup("comparison of %s and %s", x.sort, y.sort)
	}
	if x.sort.K == SSlice {
		// only legal against nil
		if y.op == OMkSl && y.args[0] == True {
			return mkSlNil(x)
		}
		if x.op == OMkSl && x.args[0] == True {
			return mkSlNil(y)
		}
	}
	if x.sort == FltS {
		return mkApp("flt==", BoolS, x, y)
	}
	if x.sort == OpqOf("func") {
		z := mkApp("zero:"+x.sort.key, x.sort)
		if x.op == OApp && strings.HasPrefix(x.name, "clo:") && y == z || y.op == OApp && strings.HasPrefix(y.name, "clo:") && x == z {
			return False
		}
	}
	return mkEq(x, y)
}

func (e *Exec) indexAddr(f *frame, st *State, ins *ssa.IndexAddr) {
	x := e.val(f, st, ins.X)
	i := e.term(st, e.val(f, st, ins.Index))
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Pointer: // pointer to array
		at := u.Elem().Underlying().(*types.Array)
		e.oblige("bounds", "index out of range", st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))), ins.Pos())
		switch x := x.(type) {
		case *Term:
			f.env[ins] = &Addr{base: x, baseT: u.Elem(), path: []pe{{field: -1, idx: i}}}
		case *Addr:
			n := *x
			n.path = append(append([]pe{}, x.path...), pe{field: -1, idx: i})
			f.env[ins] = &n
		}
		return
	case *types.Slice:
		if c, ok := x.(*CellSl); ok {
			e.oblige("bounds", "index out of range", st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(st.cells[c.ref]))), ins.Pos())
			f.env[ins] = &Addr{cell: c, idx: i, elT: u.Elem()}
			return
		}
		t := e.term(st, x)
		e.oblige("bounds", "index out of range", st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(mkSlSeq(t)))), ins.Pos())
		f.env[ins] = &Addr{sl: t, idx: i, elT: u.Elem(), prov: f.prov[ins.X]}
		return
	}
	e.unsup("indexaddr %s", ins.X.Type())
}

func (e *Exec) slice(f *frame, st *State, ins *ssa.Slice) {
	x := e.val(f, st, ins.X)
	var lo, hi *Term
	if ins.Low != nil {
		lo = e.term(st, e.val(f, st, ins.Low))
	} else {
		lo = mkInt(0)
	}
	if ins.High != nil {
		hi = e.term(st, e.val(f, st, ins.High))
	}
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		ref, ok := x.(*Term)
		if !ok {
			e.unsup("slice of interior array")
		}
		at := u.Elem().Underlying().(*types.Array)
		if ins.Low == nil && ins.High == nil && ref.op == OInt {
			f.env[ins] = &CellSl{ref: ref, elT: at.Elem()}
			return
		}
		arr := e.objLoad(st, ref, u.Elem())
		if hi == nil {
			hi = mkInt(at.Len())
		}
		e.oblige("bounds", "slice bounds", st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkInt(at.Len()))), ins.Pos())
		f.env[ins] = mkSl(False, mkSub(arr, lo, mkSubI(hi, lo)))
		return
	case *types.Slice:
		t := e.term(st, x)
		s := mkSlSeq(t)
		n := mkLen(s)
		if hi == nil {
			hi = n
		} else {
			e.assume["slicing beyond the length but within the capacity is treated as out of range"] = true
		}
		e.oblige("bounds", "slice bounds", st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), ins.Pos())
		f.env[ins] = mkSl(mkSlNil(t), mkSub(s, lo, mkSubI(hi, lo)))
		return
	case *types.Basic: // string
		s := e.term(st, x)
		n := mkLen(s)
		if hi == nil {
			hi = n
		}
		e.oblige("bounds", "string slice bounds", st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), ins.Pos())
		f.env[ins] = mkSub(s, lo, mkSubI(hi, lo))
		return
	}
	e.unsup("slice of %s", ins.X.Type())
}

func (e *Exec) mkIface(st *State, t types.Type, v Val) *Term {
	if c, ok := v.(*Clo); ok {
		tm := mkApp("clo:"+c.fn.String(), OpqOf("func"))
		e.P.cloTab[tm] = c
		v = tm
	}
	tm := e.term(st, v)
	n := tname(t)
	e.P.typeByName[n] = t
	return mkMkIf(n, tm)
}

func (e *Exec) convertNamed(st *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	a, b := sortOf(from), sortOf(to)
	if a == b {
		return t
	}
	if a.K == SStruct && b.K == SStruct {
		as := make([]*Term, len(b.Fields))
		for i := range as {
			as[i] = mkSel(t, i)
		}
		return mkMk(b, as...)
	}
	e.unsup("changetype %s -> %s", from, to)
	return nil
}

func (e *Exec) convert(st *State, x *Term, from, to types.Type) *Term {
	a, b := sortOf(from), sortOf(to)
	switch {
	case a == b && a == IntS:
		if x.op == OInt {
			return wrapConst(x, to)
		}
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			if w := narrow(fb.Kind(), tb.Kind()); w != "" {
				return mkApp("wrap:"+w, IntS, x)
			}
		}
		return x
	case a == b:
		return x
	case a == StrS && b.K == SSlice && b.Elem == StrS: // []byte(s)
		return mkSl(False, x)
	case a.K == SSlice && a.Elem == StrS && b == StrS:
		return mkSlSeq(x)
	case a == IntS && b == StrS: // string(rune)
		if fb, ok := from.Underlying().(*types.Basic); ok && (fb.Kind() == types.Uint8) {
			return mkIte(mkLt(x, mkInt(128)), mkFromCode(x), mkApp("runestr", StrS, x))
		}
		return mkApp("runestr", StrS, x)
	case a == IntS && b == FltS:
		return mkApp("itof", FltS, x)
	case a == FltS && b == IntS:
		return mkApp("ftoi", IntS, x)
	case a == StrS && b.K == SSlice:
		return mkSl(False, mkApp("runes", b.Elem, x))
	}
	e.unsup("convert %s -> %s", from, to)
	return nil
}

func narrow(from, to types.BasicKind) string {
	w := func(k types.BasicKind) (int, bool) {
		switch k {
		case types.Int8:
			return 8, true
		case types.Int16:
			return 16, true
		case types.Int32:
			return 32, true
		case types.Int64, types.Int:
			return 64, true
		case types.Uint8:
			return 8, false
		case types.Uint16:
			return 16, false
		case types.Uint32:
			return 32, false
		case types.Uint64, types.Uint, types.Uintptr:
			return 64, false
		}
		return 0, false
	}
	fw, fs := w(from)
	tw, ts := w(to)
	if fw == 0 || tw == 0 {
		return ""
	}
	if ts == fs && tw >= fw || ts && !fs && tw > fw {
		return ""
	}
	if tw == 64 && fw == 64 {
		return "" // int <-> uint64 of the same width: mathematical
	}
	if !ts && fs && tw >= fw {
		return "" // sign conversion to a wide type: mathematical (assumption)
	}
	return strconv.Itoa(tw) + map[bool]string{true: "s", false: "u"}[ts]
}

func (e *Exec) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, t := range e.P.runtimeTypes() {
		if types.Implements(t, it) {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				out = append(out, t)
			}
		}
	}
	return out
}

func (e *Exec) typeAssert(f *frame, st *State, ins *ssa.TypeAssert) {
	x := e.term(st, e.val(f, st, ins.X))
	if it, ok := ins.AssertedType.Underlying().(*types.Interface); ok {
		var ok2 *Term
		if x.op == OMkIf {
			t := e.P.typeByName[x.name]
			ok2 = mkBool(t != nil && types.Implements(t, it))
			if x.name == "error" {
				ok2 = mkBool(it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error")
			}
		} else if it.NumMethods() == 0 {
			ok2 = mkNot(mkEq(mkTag(x), mkInt(0)))
		} else {
			var ds []*Term
			for _, t := range e.implementers(it) {
				ds = append(ds, mkEq(mkTag(x), mkInt(typeID(tname(t)))))
			}
			ok2 = mkOr(ds...)
		}
		if ins.CommaOk {
			f.env[ins] = Tuple{mkIte(ok2, x, IfNil), ok2}
		} else {
			e.oblige("assert", "type assertion", st, ok2, ins.Pos())
			f.env[ins] = x
		}
		return
	}
	n := tname(ins.AssertedType)
	e.P.typeByName[n] = ins.AssertedType
	ok := mkEq(mkTag(x), mkInt(typeID(n)))
	v := mkIfVal(n, sortOf(ins.AssertedType), x)
	if ins.CommaOk {
		f.env[ins] = Tuple{mkIte(under(st.guard, ok), v, zeroOf(ins.AssertedType)), ok}
	} else {
		e.oblige("assert", "type assertion", st, ok, ins.Pos())
		f.env[ins] = v
	}
}

// ---------- maps (value semantics on a cell: association list kept as ghost term)

func (e *Exec) emptyMap(mt *types.Map) *Term {
	return mkApp("map:empty", OpqOf("map:"+tname(mt)))
}

func (e *Exec) lookup(f *frame, st *State, ins *ssa.Lookup) {
	x := e.val(f, st, ins.X)
	k := e.term(st, e.val(f, st, ins.Index))
	if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.(*Term)
		e.oblige("bounds", "string index out of range", st, mkAnd(mkLe(mkInt(0), k), mkLt(k, mkLen(s))), ins.Pos())
		f.env[ins] = mkCode(s, k)
		return
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	m := e.mapVal(st, x, ins.X.Type())
	v, ok := e.mapGet(m, k, mt)
	if ins.CommaOk {
		f.env[ins] = Tuple{v, ok}
	} else {
		f.env[ins] = v
	}
}

func (e *Exec) mapVal(st *State, x Val, t types.Type) *Term {
	r := e.term(st, x)
	return e.mapLoad(st, r, t)
}
func (e *Exec) mapLoad(st *State, r *Term, t types.Type) *Term {
	mt := t.Underlying().(*types.Map)
	ms := OpqOf("map:" + tname(mt))
	if r.op == OInt {
		if v, ok := st.cells[r]; ok {
			return v
		}
		if r.ival.Sign() == 0 {
			return e.emptyMap(mt)
		}
	}
	if r.op == OIte {
		return mkIte(r.args[0], e.mapLoad(st, r.args[1], t), e.mapLoad(st, r.args[2], t))
	}
	k := "map:" + tname(mt)
	h, ok := st.heap[k]
	if !ok {
		h = mkVar("H0:"+k, ArrOf(ms))
		e.heapSorts[k] = h.sort
		st.heap[k] = h
	}
	return mkSelect(h, r)
}

func (e *Exec) mapGet(m, k *Term, mt *types.Map) (v, ok *Term) {
	vs := sortOf(mt.Elem())
	switch {
	case m.op == OApp && m.name == "map:empty":
		return zeroOf(mt.Elem()), False
	case m.op == OApp && m.name == "map:put":
		eq := mkEq(m.args[1], k)
		v0, ok0 := e.mapGet(m.args[0], k, mt)
		return mkIte(eq, m.args[2], v0), mkOr(eq, ok0)
	case m.op == OIte:
		v1, o1 := e.mapGet(m.args[1], k, mt)
		v2, o2 := e.mapGet(m.args[2], k, mt)
		return mkIte(m.args[0], v1, v2), mkIte(m.args[0], o1, o2)
	}
	ok = mkApp("map:has", BoolS, m, k)
	v = mkIte(ok, mkApp("ext:map:get:"+vs.key, vs, m, k), zeroOf(mt.Elem()))
	return v, ok
}

func (e *Exec) mapUpdate(f *frame, st *State, ins *ssa.MapUpdate) {
	r := e.term(st, e.val(f, st, ins.Map))
	k := e.term(st, e.val(f, st, ins.Key))
	v := e.term(st, e.val(f, st, ins.Value))
	mt := ins.Map.Type().Underlying().(*types.Map)
	m := e.mapLoad(st, r, ins.Map.Type())
	nm := mkApp("map:put", OpqOf("map:"+tname(mt)), m, k, v)
	if r.op == OInt && r.ival.Sign() < 0 {
		st.cells[r] = nm
		return
	}
	e.nilCheck(st, r, ins.Pos())
	kk := "map:" + tname(mt)
	st.heap[kk] = mkStore(st.heap[kk], r, nm)
}
