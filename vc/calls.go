// Calls: builtins, contracts, modelled library functions, interface dispatch.
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const zzPath = "github.com/k0kubun/sqldef/zzverif"

func (e *Exec) callCommon(f *frame, st *State, cc *ssa.CallCommon, args []Val, pos token.Pos, call *ssa.Call) (Val, *State) {
	if st.guard == False {
		return nil, nil
	}
	if cc.IsInvoke() {
		recv := e.term(st, e.val(f, st, cc.Value))
		return e.invoke(f, st, recv, cc.Method, args, pos, cc)
	}
	switch fn := cc.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(f, st, fn, cc, args, pos)
	case *ssa.Function:
		return e.callStatic(f, st, fn, args, nil, pos, cc)
	}
	v := e.val(f, st, cc.Value)
	switch v := v.(type) {
	case *Clo:
		return e.callClo(f, st, v, args, pos, cc)
	case *Term:
		return e.callTermFn(f, st, v, args, pos, cc)
	}
	e.unsup("call of %T", v)
	return nil, nil
}

func (e *Exec) callClo(f *frame, st *State, v *Clo, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State) {
	return e.callStatic(f, st, v.fn, args, v.binds, pos, cc)
}

// function value given as a term (stored closure, ite of closures, or an unknown function)
func (e *Exec) callTermFn(f *frame, st *State, v *Term, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State) {
	if c, ok := e.P.cloTab[v]; ok {
		return e.callClo(f, st, c, args, pos, cc)
	}
	if v.op == OIte {
		a, b := st.clone(), st.clone()
		a.guard = mkAnd(st.guard, v.args[0])
		b.guard = mkAnd(st.guard, mkNot(v.args[0]))
		return e.fork([]*State{a, b}, func(i int, s *State) (Val, *State) {
			return e.callTermFn(f, s, v.args[1+i], args, pos, cc)
		})
	}
	if v.op == OVar {
		// an unknown function: pure, uninterpreted in its arguments
		sig := cc.Signature()
		ts := []*Term{v}
		for _, a := range args {
			ts = append(ts, e.term(st, a))
		}
		e.assume["function values passed in are pure"] = true
		return e.extResults(sig, "fn", ts), st
	}
	e.unsup("call of function value %s", v)
	return nil, nil
}

// fork runs alternatives and merges.
func (e *Exec) fork(sts []*State, run func(i int, s *State) (Val, *State)) (Val, *State) {
	var outs []*State
	var vals []Val
	for i, s := range sts {
		if s.guard == False {
			continue
		}
		v, ns := run(i, s)
		if ns == nil || ns.guard == False {
			continue
		}
		outs = append(outs, ns)
		vals = append(vals, v)
	}
	if len(outs) == 0 {
		return nil, nil
	}
	ms, rest := e.mergeStates(outs)
	v := e.mergeVals(outs, rest, vals)
	for _, s := range outs {
		for k, c := range s.cells {
			if _, ok := ms.cells[k]; !ok {
				ms.cells[k] = c
			}
		}
	}
	return v, ms
}

func (e *Exec) extResults(sig *types.Signature, name string, ts []*Term) Val {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	var out Tuple
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		out = append(out, e.extVal("ext:"+name+":"+strconv.Itoa(i), t, ts))
	}
	if n == 1 {
		return out[0]
	}
	return out
}

// extVal: an unknown value of type t determined by ts.
func (e *Exec) extVal(name string, t types.Type, ts []*Term) *Term {
	s := sortOf(t)
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return mkIte(mkApp(name+"?", BoolS, ts...), mkMkIf("error", mkApp(name+"!", StrS, ts...)), IfNil)
	}
	return mkApp(name, s, ts...)
}

func (e *Exec) callStatic(f *frame, st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State) {
	name := fn.String()
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == zzPath {
		return e.zzCall(f, st, fn, args, pos, cc)
	}
	if org := fn.Origin(); org != nil && org.Pkg != nil && org.Pkg.Pkg.Path() == zzPath {
		return e.zzCall(f, st, org, args, pos, cc)
	}
	if v, ns, ok := e.safeTarget(fn, args, st, pos); ok {
		return v, ns
	}
	changes := e.root != nil && e.root.Flags["changes "+strings.ReplaceAll(name, modPath+"/", "")]
	if changes || e.root != nil && e.root.Flags["external "+strings.ReplaceAll(name, modPath+"/", "")] {
		e.assume[name+" is an external effect whose results depend on its arguments and the history"] = true
		var ts, local []*Term
		for _, a := range args {
			t := e.term(st, a)
			x := t
			if t.op == OMkIf {
				x = t.args[0]
			}
			if c, ok := st.cells[x]; ok && x.op == OInt {
				// a local object: what it holds
				if changes {
					e.assume[name+" changes no objects but those it is given"] = true
					local = append(local, x)
				} else {
					e.assume[name+" does not change the local objects it is given"] = true
				}
				x = mkApp("newobj", IntS, c)
				if t.op == OMkIf {
					x = mkMkIf(t.name, x)
				}
				t = x
			}
			ts = append(ts, t)
		}
		r, ns := e.io(st, name, fn.Signature, ts...)
		for i, x := range local {
			ns.cells[x] = mkApp("after:"+name+":"+strconv.Itoa(i), ns.cells[x].sort, ns.trace)
		}
		return r, ns
	}
	if e.root != nil && e.root.Flags["pure "+strings.ReplaceAll(name, modPath+"/", "")] {
		if c := e.P.summary[fn]; c != nil {
			// its own contract shows that it has no effects
			e.viaC[c.Name] = true
			e.assume["the arguments that "+e.root.TargetN+" passes to "+c.TargetN+" meet its precondition (they come from the parser)"] = true
		} else {
			e.assume[name+" returns normally, changes nothing and its result depends only on its arguments and what they refer to"] = true
		}
		var ts []*Term
		for _, a := range args {
			t := e.term(st, a)
			if hasFresh(t) {
				panic(unsupported{"the argument of " + name + " is a local object"})
			}
			ts = append(ts, t)
		}
		// what the arguments refer to is the memory at entry, unless something was written to it
		for _, k := range sortedHeap(st) {
			h := dropFresh(st.heap[k])
			if h.op != OVar {
				ts = append(ts, mkStr(k), h)
			}
		}
		return e.extResults(fn.Signature, "pure:"+name, ts), st
	}
	if e.P.opaque[fn] {
		if !e.revealed(fn) {
			if v, ok := e.opaqueApp(st, fn, args); ok {
				return v, st
			}
		}
		e.total++
		defer func() { e.total-- }()
	}
	if e.P.lemmas[fn] != nil && fn != e.root.Fn {
		return nil, e.useLemma(st, fn, args, pos)
	}
	if c := e.P.summary[fn]; c != nil && !e.noSummary(c) {
		e.viaC[c.Name] = true
		e.reqStack = append(e.reqStack, reqFrame{check: e.spec == 0 || e.reqStack[len(e.reqStack)-1].check, what: c.Name})
		e.spec++
		// a summary has the same signature as its target (receiver first)
		nref := e.nref
		pre := make(map[string]*Term, len(st.heap))
		for k, v := range st.heap {
			pre[k] = v
		}
		v, ns := e.callFn(c.Fn, args, nil, st, pos)
		e.spec--
		e.reqStack = e.reqStack[:len(e.reqStack)-1]
		if ns == nil {
			return v, ns
		}
		e.relaxState(c, pre, nref, ns, v, args)
		return e.relaxed(c, ns, v, args), ns
	}
	if v, ns, ok := e.model(f, st, name, fn, args, pos, cc); ok {
		return v, ns
	}
	if fn.Blocks != nil && (e.P.inRepo(fn) || e.P.inlineOK(fn)) {
		if e.spec == 0 {
			e.inlined[name] = true
		}
		return e.callFn(fn, args, binds, st, pos)
	}
	e.unsup("call of %s has neither body nor model", name)
	return nil, nil
}

// useLemma assumes what a lemma (proved as a contract of its own) says about these arguments.
func (e *Exec) useLemma(st *State, fn *ssa.Function, args []Val, pos token.Pos) *State {
	e.viaC[e.P.lemmas[fn].Name] = true
	run := func(mode int) *Term {
		saved, sreq, sspec, nreq := e.lemmaMode, e.reqStack, e.spec, len(e.reqs)
		e.lemmaMode = mode
		e.reqStack = append(append([]reqFrame{}, sreq...), reqFrame{})
		e.spec++
		_, ns := e.callFn(fn, args, nil, st.clone(), pos)
		e.lemmaMode, e.reqStack, e.spec = saved, sreq, sspec
		e.reqs = e.reqs[:nreq]
		if ns == nil {
			return False
		}
		return ns.guard
	}
	gp := run(1)
	gpq := run(2)
	p := under(st.guard, gp)
	q := under(mkAnd(st.guard, p), gpq)
	fact := mkOr(mkNot(p), q)
	ns := st.clone()
	e.presume(ns, fact)
	return ns
}

// opaqueApp is the value of a contract helper whose definition is not unfolded here: a function of its arguments and of
// the objects they can reach.
func (e *Exec) opaqueApp(st *State, fn *ssa.Function, args []Val) (Val, bool) {
	var ts []*Term
	keys := map[string]bool{}
	for i, a := range args {
		t := e.term(st, a)
		if hasFresh(t) {
			return nil, false
		}
		if !reachKeys(fn.Params[i].Type(), keys, map[types.Type]bool{}) {
			return nil, false
		}
		ts = append(ts, t)
	}
	for _, k := range sortedKeysB(keys) {
		h := e.heapAt(st, k, nil)
		old := dropFresh(h)
		if hasFresh(old) {
			return nil, false
		}
		ts = append(ts, old)
	}
	rs := fn.Signature.Results()
	var tp Tuple
	for i := 0; i < rs.Len(); i++ {
		if !pure(rs.At(i).Type(), 0) && !types.Identical(rs.At(i).Type().Underlying(), rs.At(i).Type()) {
			k := map[string]bool{}
			if !reachKeys(rs.At(i).Type(), k, map[types.Type]bool{}) {
				return nil, false
			}
		}
		tp = append(tp, mkApp(fmt.Sprintf("spec:%s:%d", fn.Name(), i), sortOf(rs.At(i).Type()), ts...))
	}
	if len(tp) == 1 {
		return tp[0], true
	}
	return tp, true
}

func sortedHeap(st *State) []string {
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// dropFresh removes the objects allocated here from a heap; old objects cannot refer to them unless they were
// overwritten, which leaves a fresh reference behind.
func dropFresh(h *Term) *Term {
	switch h.op {
	case OStore:
		r := h.args[1]
		if r.op == OFresh || r.op == OInt && r.ival.Sign() < 0 {
			return dropFresh(h.args[0])
		}
	case OHFill:
		if h.args[2].args[0].op == OFresh {
			return dropFresh(h.args[0])
		}
	case OIte:
		return mkIte(h.args[0], dropFresh(h.args[1]), dropFresh(h.args[2]))
	}
	return h
}

func reachKeys(t types.Type, keys map[string]bool, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n := tname(u.Elem())
		keys[n] = true
		tnames[n] = u.Elem()
		return reachKeys(u.Elem(), keys, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !reachKeys(u.Field(i).Type(), keys, seen) {
				return false
			}
		}
		return true
	case *types.Slice:
		return reachKeys(u.Elem(), keys, seen)
	case *types.Array:
		return reachKeys(u.Elem(), keys, seen)
	case *types.Basic:
		return true
	}
	return false
}

func (e *Exec) revealed(fn *ssa.Function) bool {
	if e.root == nil {
		return false
	}
	for _, r := range e.root.Reveal {
		if r == fn.Name() || r == "*" {
			return true
		}
	}
	return false
}
func (e *Exec) noSummary(c *Contract) bool {
	if e.root == nil {
		return false
	}
	for _, r := range e.root.Inline {
		if r == c.Target.Name() || r == "*" {
			return true
		}
	}
	return false
}

func (e *Exec) invoke(f *frame, st *State, recv *Term, m *types.Func, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State) {
	if v, ns, ok := e.modelInvoke(f, st, recv, m, args, pos, cc); ok {
		return v, ns
	}
	if recv.op == OIte {
		a, b := st.clone(), st.clone()
		a.guard = mkAnd(st.guard, recv.args[0])
		b.guard = mkAnd(st.guard, mkNot(recv.args[0]))
		return e.fork([]*State{a, b}, func(i int, s *State) (Val, *State) {
			return e.invoke(f, s, under(s.guard, recv.args[1+i]), m, args, pos, cc)
		})
	}
	if recv.op == OMkIf {
		t := e.P.typeByName[recv.name]
		if t == nil {
			e.unsup("invoke %s on %s", m.Name(), recv.name)
		}
		fn := e.P.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			e.unsup("no method %s on %s", m.Name(), t)
		}
		return e.callStatic(f, st, fn, append([]Val{recv.args[0]}, args...), nil, pos, cc)
	}
	if recv == IfNil {
		e.oblige("nil", "method call on nil interface", st, False, pos)
		return nil, nil
	}
	it := cc.Value.Type().Underlying().(*types.Interface)
	impls := e.implementers(it)
	if len(impls) == 0 || len(impls) > 40 {
		e.unsup("interface call %s with %d implementers", m.Name(), len(impls))
	}
	e.oblige("nil", "method call on nil interface", st, mkNot(mkEq(mkTag(recv), mkInt(0))), pos)
	e.assume["closed world: "+tname(cc.Value.Type())+" is implemented only by the types of this program"] = true
	var sts []*State
	for _, t := range impls {
		s := st.clone()
		n := tname(t)
		e.P.typeByName[n] = t
		s.guard = mkAnd(st.guard, mkEq(mkTag(recv), mkInt(typeID(n))))
		sts = append(sts, s)
	}
	return e.fork(sts, func(i int, s *State) (Val, *State) {
		t := impls[i]
		fn := e.P.prog.LookupMethod(t, m.Pkg(), m.Name())
		return e.callStatic(f, s, fn, append([]Val{mkIfVal(tname(t), sortOf(t), recv)}, args...), nil, pos, cc)
	})
}

// ---------- builtins

func (e *Exec) sliceContent(st *State, v Val) (nilf, seq *Term) {
	switch x := v.(type) {
	case *CellSl:
		return False, st.cells[x.ref]
	}
	t := e.term(st, v)
	if t.sort == StrS {
		return False, t
	}
	return mkSlNil(t), mkSlSeq(t)
}

func (e *Exec) builtin(f *frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) (Val, *State) {
	switch b.Name() {
	case "len", "cap":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m := e.mapVal(st, args[0], cc.Args[0].Type())
			return e.mapLen(m), st
		case *types.Array:
			return mkInt(u.Len()), st
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len()), st
		}
		_, s := e.sliceContent(st, args[0])
		if b.Name() == "cap" {
			e.assume["cap is treated as len"] = true
		}
		return mkLen(s), st
	case "append":
		n, s := e.sliceContent(st, args[0])
		_, t := e.sliceContent(st, args[1])
		if e.spec == 0 {
			e.assume["append: the result does not share its tail with another live slice (value semantics of slices)"] = true
		}
		return mkSl(mkAnd(n, mkIsEmpty(t)), mkConcat(s.sort, s, t)), st
	case "copy":
		_, s := e.sliceContent(st, args[1])
		c, ok := args[0].(*CellSl)
		if !ok {
			if a := f.prov[cc.Args[0]]; a != nil {
				cur := e.loadAddr(st, a, pos)
				d := mkSlSeq(cur)
				nd, k := copySeq(d, s)
				e.store(st, a, nil, mkSl(mkSlNil(cur), nd), pos)
				return k, st
			}
			e.unsup("copy into a slice of unknown origin")
		}
		nd, k := copySeq(st.cells[c.ref], s)
		st.cells[c.ref] = nd
		return k, st
	case "print", "println":
		return nil, st
	case "ssa:wrapnilchk":
		t := e.term(st, args[0])
		e.nilCheck(st, t, pos)
		return args[0], st
	case "delete":
		e.unsup("delete")
	case "recover":
		return IfNil, st
	case "min", "max":
		x, y := e.term(st, args[0]), e.term(st, args[1])
		if b.Name() == "min" {
			return mkIte(mkLe(x, y), x, y), st
		}
		return mkIte(mkLe(x, y), y, x), st
	}
	e.unsup("builtin %s", b.Name())
	return nil, nil
}

func copySeq(d, s *Term) (*Term, *Term) {
	ld, ls := mkLen(d), mkLen(s)
	k := mkIte(mkLe(ld, ls), ld, ls)
	return mkConcat(d.sort, mkSub(s, mkInt(0), k), mkSub(d, k, mkSubI(ld, k))), k
}

func (e *Exec) mapLen(m *Term) *Term {
	switch {
	case m.op == OApp && m.name == "map:empty":
		return mkInt(0)
	case m.op == OApp && m.name == "map:put":
		return mkApp("map:len", IntS, m)
	}
	return mkApp("map:len", IntS, m)
}

// ---------- trace

func (e *Exec) traceOf(st *State) *Term {
	if st.trace == nil {
		return mkVar("TR0", SeqOf(IfaceS))
	}
	return st.trace
}

func (e *Exec) event(st *State, name string, ts ...*Term) *Term {
	var p *Term
	if len(ts) == 1 {
		p = ts[0]
	} else {
		p = mkApp("ev"+strconv.Itoa(len(ts)), OpqOf("ev"), ts...)
	}
	ev := mkMkIf("ev:"+name, p)
	st.trace = mkConcat(SeqOf(IfaceS), e.traceOf(st), mkUnit(ev))
	return st.trace
}

// io: an external effect; results depend on the whole history.
func (e *Exec) io(st *State, name string, sig *types.Signature, ts ...*Term) (Val, *State) {
	tr := e.event(st, name, ts...)
	return e.extResults(sig, name, []*Term{tr}), st
}

// ---------- globals

func (e *Exec) globalRef(st *State, g *ssa.Global) Val {
	if r, ok := e.globals[g]; ok {
		if r.op == OInt {
			if _, ok := st.cells[r]; !ok {
				e.initGlobal(st, g, r)
			}
		}
		return r
	}
	var r *Term
	if e.P.isConstGlobal(g) {
		r = mkInt(-(1<<40 + int64(e.P.globalID(g))*1000))
		e.cellT[r] = g.Type().Underlying().(*types.Pointer).Elem()
		e.initGlobal(st, g, r)
	} else {
		r = mkVar("G:"+g.String(), IntS)
	}
	e.globals[g] = r
	return r
}

func (e *Exec) initGlobal(st *State, g *ssa.Global, r *Term) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	n := int64(0)
	alloc := func(ty types.Type) *Term {
		n++
		x := mkBig(mkSubI(r, mkInt(n)).ival)
		e.cellT[x] = ty
		return x
	}
	init := g.Pkg.Func("init")
	var ev func(v ssa.Value) *Term
	bad := false
	ev = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			return e.constVal(v).(*Term)
		case *ssa.MakeMap:
			x := alloc(v.Type())
			mt := v.Type().Underlying().(*types.Map)
			m := e.emptyMap(mt)
			for _, b := range init.Blocks {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.MapUpdate); ok && u.Map == v {
						a, b := ev(u.Key), ev(u.Value)
						if bad {
							return x
						}
						m = mkApp("map:put", OpqOf("map:"+tname(mt)), m, a, b)
					}
				}
			}
			st.cells[x] = m
			return x
		case *ssa.Slice:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
				at := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				es := make([]*Term, at.Len())
				for i := range es {
					es[i] = zeroOf(at.Elem())
				}
				for _, b := range init.Blocks {
					for _, ins := range b.Instrs {
						if s, ok := ins.(*ssa.Store); ok {
							if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == a {
								c, ok := ia.Index.(*ssa.Const)
								if !ok {
									bad = true
									return nil
								}
								i, _ := constant.Int64Val(c.Value)
								es[i] = ev(s.Val)
								if bad {
									return nil
								}
							}
						}
					}
				}
				if isByte(at.Elem()) {
					bad = true
					return nil
				}
				ps := make([]*Term, len(es))
				for i := range es {
					ps[i] = mkUnit(es[i])
				}
				return mkSl(False, mkConcat(SeqOf(sortOf(at.Elem())), ps...))
			}
		case *ssa.Convert:
			x := ev(v.X)
			if bad {
				return nil
			}
			return e.convert(st, x, v.X.Type(), v.Type())
		case *ssa.ChangeType:
			return ev(v.X)
		case *ssa.UnOp:
			// a struct literal: stored field by field into a temporary
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				at := a.Type().Underlying().(*types.Pointer).Elem()
				if _, ok := at.Underlying().(*types.Struct); !ok {
					break
				}
				x := zeroOf(at)
				for _, b := range init.Blocks {
					for _, ins := range b.Instrs {
						s, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == a {
							y := ev(s.Val)
							if bad {
								return nil
							}
							fs := make([]*Term, len(x.sort.Fields))
							for i := range fs {
								fs[i] = mkSel(x, i)
							}
							fs[fa.Field] = y
							x = mkMk(x.sort, fs...)
						} else if s.Addr == a {
							bad = true
							return nil
						}
					}
				}
				return x
			}
		case *ssa.MakeInterface:
			x := ev(v.X)
			if bad {
				return nil
			}
			return e.mkIface(st, v.X.Type(), x)
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil && c.String() == "errors.New" {
				return mkMkIf("error", ev(v.Call.Args[0]))
			} else if c != nil && (c.String() == "regexp.MustCompile" || c.String() == "regexp.MustCompilePOSIX") {
				p := ev(v.Call.Args[0])
				if bad {
					return nil
				}
				return mkApp(c.String(), IntS, p)
			}
		case *ssa.Function:
			c := &Clo{fn: v}
			tm := mkApp("clo:"+v.String(), OpqOf("func"))
			e.P.cloTab[tm] = c
			return tm
		}
		bad = true
		return nil
	}
	val := zeroOf(t)
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
				val = ev(s.Val)
			}
		}
	}
	if bad || val == nil {
		val = e.extVal("ext:global:"+g.String(), t, nil)
		if t.Underlying() == nil {
			val = zeroOf(t)
		}
	}
	// direct composite initialisation (arrays / structs) is left opaque
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				switch a := s.Addr.(type) {
				case *ssa.IndexAddr:
					if a.X == g {
						val = e.extVal("ext:global:"+g.String(), t, nil)
					}
				case *ssa.FieldAddr:
					if a.X == g {
						val = e.extVal("ext:global:"+g.String(), t, nil)
					}
				}
			}
		}
	}
	st.cells[r] = val
}

// ---------- structural equality (reflect.DeepEqual), over two states

func (e *Exec) deepEq(sa, sb *State, a, b *Term, t types.Type, depth int) *Term {
	if depth > 14 {
		e.unsup("deepEq too deep at %s", t)
	}
	if pure(t, 0) {
		return mkEq(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		na, nb := mkEq(a, mkInt(0)), mkEq(b, mkInt(0))
		if na == True || nb == True {
			return mkAnd(na, nb)
		}
		if a == b && sa == sb {
			return True
		}
		if e.lock != nil && e.lock.cmp {
			return e.pair(sa, sb, a, b, u.Elem(), depth)
		}
		x, y := e.objLoad(sa, a, u.Elem()), e.objLoad(sb, b, u.Elem())
		if a == b && x == y && !hasFresh(x) {
			return True
		}
		return mkIte(mkOr(na, nb), mkAnd(na, nb), e.deepEq(sa, sb, x, y, u.Elem(), depth+1))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, e.deepEq(sa, sb, mkSel(a, i), mkSel(b, i), u.Field(i).Type(), depth+1))
		}
		return mkAnd(cs...)
	case *types.Slice:
		if a == b && sa == sb {
			return True
		}
		x, y := mkSlSeq(a), mkSlSeq(b)
		return mkAnd(mkEq(mkSlNil(a), mkSlNil(b)), e.deepEqSeq(sa, sb, x, y, u.Elem(), depth))
	case *types.Array:
		return e.deepEqSeq(sa, sb, a, b, u.Elem(), depth)
	case *types.Interface:
		if a == b && sa == sb {
			return True
		}
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return mkEq(mkEq(mkTag(a), mkInt(0)), mkEq(mkTag(b), mkInt(0)))
		}
		names := map[string]bool{}
		for _, x := range []*Term{a, b} {
			walk(x, map[*Term]bool{}, func(y *Term) {
				if y.op == OMkIf {
					names[y.name] = true
				}
			})
		}
		cs := []*Term{mkEq(mkTag(a), mkTag(b))}
		var ks []string
		for n := range names {
			ks = append(ks, n)
		}
		sortStrings(ks)
		var others []*Term
		for _, n := range ks {
			ty := e.P.typeByName[n]
			if ty == nil {
				continue
			}
			is := mkEq(mkTag(a), mkInt(typeID(n)))
			others = append(others, mkNot(is))
			cs = append(cs, mkImp(is, e.deepEq(sa, sb, mkIfVal(n, sortOf(ty), a), mkIfVal(n, sortOf(ty), b), ty, depth+1)))
		}
		cs = append(cs, mkImp(mkAnd(others...), mkEq(a, b)))
		return mkAnd(cs...)
	}
	return mkEq(a, b)
}

func iteUnder(c, a, b *Term) *Term { return mkIte(c, under(c, a), under(mkNot(c), b)) }

func hasFresh(t *Term) bool {
	r := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.op == OFresh || x.op == OInt && x.ival.Sign() < 0 {
			r = true
		}
	})
	return r
}

func (e *Exec) deepEqSeq(sa, sb *State, x, y *Term, el types.Type, depth int) *Term {
	if pure(el, 0) {
		return mkEq(x, y)
	}
	if x == y && sa == sb {
		return True
	}
	if e.lock != nil && e.lock.cmp {
		if x == y && !hasFresh(x) {
			return True
		}
		if x.op == OIte {
			return iteUnder(x.args[0], e.deepEqSeq(sa, sb, x.args[1], under(x.args[0], y), el, depth), e.deepEqSeq(sa, sb, x.args[2], under(mkNot(x.args[0]), y), el, depth))
		}
		if y.op == OIte {
			return iteUnder(y.args[0], e.deepEqSeq(sa, sb, under(y.args[0], x), y.args[1], el, depth), e.deepEqSeq(sa, sb, under(mkNot(y.args[0]), x), y.args[2], el, depth))
		}
	}
	px, py := pieces(x), pieces(y)
	if len(px) == len(py) {
		ok := true
		var cs []*Term
		for i := range px {
			if px[i].op == OUnit && py[i].op == OUnit {
				cs = append(cs, e.deepEq(sa, sb, px[i].args[0], py[i].args[0], el, depth+1))
			} else if px[i] == py[i] && mkLen(px[i]) == mkLen(py[i]) {
				cs = append(cs, e.deepEqSeqRaw(sa, sb, px[i], py[i], el, depth))
			} else if e.lock != nil && e.lock.cmp && len(px) > 1 {
				cs = append(cs, e.deepEqSeq(sa, sb, px[i], py[i], el, depth))
			} else {
				ok = false
				break
			}
		}
		if ok {
			return mkAnd(cs...)
		}
	}
	return e.deepEqSeqRaw(sa, sb, x, y, el, depth)
}
func (e *Exec) deepEqSeqRaw(sa, sb *State, x, y *Term, el types.Type, depth int) *Term {
	freshN++
	k := mkVar(fmt.Sprintf("k!%d", freshN), IntS)
	d := e.deepEq(sa, sb, mkNth(x, k), mkNth(y, k), el, depth+1)
	return mkAnd(mkEq(mkLen(x), mkLen(y)), mkNot(mkEx(mkLen(x), mkLam([]*Term{k}, mkNot(d)))))
}

// pure: term equality is structural equality.
func pure(t types.Type, d int) bool {
	if d > 8 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return pure(u.Elem(), d+1)
	case *types.Array:
		return pure(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !pure(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Signature:
		return true
	}
	return false
}

// ---------- zz intrinsics

type reqFact struct{ guard, cond *Term }

type reqFrame struct {
	check bool
	what  string
}

func (e *Exec) zzCall(f *frame, st *State, fn *ssa.Function, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State) {
	switch fn.Name() {
	case "Requires":
		e.lost++
		c := e.term(st, args[0])
		if e.lemmaMode > 0 {
			e.noteReq(st.guard, c)
			st.guard = mkAnd(st.guard, c)
			return nil, st
		}
		rf := e.reqStack[len(e.reqStack)-1]
		if rf.check {
			// an obligation of the caller; not assumed afterwards, so that it does not become part of path conditions
			e.oblige("pre", "precondition of "+rf.what, st, c, e.callPos)
			return nil, st
		}
		e.presume(st, c)
		if st.guard == False {
			return nil, nil
		}
		return nil, st
	case "Ensures":
		nm := args[0].(*Term)
		c := e.term(st, args[1])
		if e.safe != nil && len(e.safe.apply) > 0 {
			e.presume(st, c)
			if st.guard == False {
				return nil, nil
			}
			return nil, st
		}
		if e.lemmaMode > 0 {
			if e.lemmaMode == 2 {
				e.noteReq(st.guard, c)
				st.guard = mkAnd(st.guard, c)
			}
			return nil, st
		}
		e.oblige("ensures", nm.name, st, c, pos)
		return nil, st
	case "Keeps":
		if L := e.lock; L != nil && L.phase == 0 && L.in == 1 && f.fn == L.fn {
			s := L.loops[L.n-1].side[0]
			c := e.term(st, args[0])
			s.keeps = append(s.keeps, c)
			e.facts = append(e.facts, mkOr(mkNot(s.entryC.guard), c))
		}
		return nil, st
	case "Same":
		// Same[T any](a, b T)
		a, b := e.term(st, args[0]), e.term(st, args[1])
		return e.deepEq(st, st, a, b, cc.Args[0].Type(), 0), st
	case "Implies":
		return mkImp(e.term(st, args[0]), e.term(st, args[1])), st
	case "Count":
		// number of events so far
		return mkLen(e.traceOf(st)), st
	}
	e.unsup("intrinsic %s", fn.Name())
	return nil, nil
}

// presume records a precondition. Literals strengthen the path condition; anything larger is kept beside it, so that the
// conditions under which paths are taken do not depend on how the precondition was written.
func (e *Exec) presume(st *State, c *Term) {
	c = under(st.guard, c)
	if c == True {
		return
	}
	e.lost++
	if len(e.iters) > 0 || e.lemmaMode > 0 {
		e.noteReq(st.guard, c)
		st.guard = mkAnd(st.guard, c)
		return
	}
	var big []*Term
	for _, x := range conj(c) {
		if (st.guard == True || st.guard == e.base) && isLiteral(x) || x == False {
			e.facts = append(e.facts, mkOr(mkNot(st.guard), x))
			st.guard = mkAnd(st.guard, x)
			e.base = st.guard
		} else {
			big = append(big, x)
		}
	}
	if len(big) > 0 {
		e.facts = append(e.facts, mkOr(mkNot(st.guard), mkAnd(big...)))
	}
}

func isLiteral(t *Term) bool {
	if t.op == ONot {
		t = t.args[0]
	}
	switch t.op {
	case OAnd, OOr, OIte, OEx, ONot:
		return false
	}
	return t.size < 30
}

func (e *Exec) noteReq(g, c *Term) {
	if len(e.iters) > 0 && c != True {
		e.reqs = append(e.reqs, reqFact{g, c})
	}
}

func constStr(t *Term) (string, bool) {
	if t.op == OStrC {
		return t.name, true
	}
	return "", false
}

func (e *Exec) variadic(st *State, v Val) []*Term {
	_, s := e.sliceContent(st, v)
	var out []*Term
	for _, p := range pieces(s) {
		if p.op != OUnit {
			return nil
		}
		out = append(out, p.args[0])
	}
	if out == nil {
		out = []*Term{}
	}
	return out
}

// sprintf with a constant format.
func (e *Exec) sprintf(f *frame, st *State, format string, as []*Term, pos token.Pos) (*Term, *State) {
	var out []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit += "%!(NOVERB)"
			break
		}
		verb := format[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if ai >= len(as) {
			lit += "%!" + verb[len(verb)-1:] + "(MISSING)"
			continue
		}
		a := as[ai]
		ai++
		var t *Term
		t, st = e.fmtVerb(f, st, verb, a, pos)
		out = append(out, mkStr(lit), t)
		lit = ""
	}
	out = append(out, mkStr(lit))
	if ai < len(as) {
		out = append(out, mkStr("%!(EXTRA "), mkApp("fmt:extra", StrS, as[ai:]...))
	}
	return mkConcat(StrS, out...), st
}

func (e *Exec) fmtVerb(f *frame, st *State, verb string, a *Term, pos token.Pos) (*Term, *State) {
	if a.op == OIte {
		x, s1 := e.fmtVerb(f, st, verb, a.args[1], pos)
		y, s2 := e.fmtVerb(f, s1, verb, a.args[2], pos)
		return mkIte(a.args[0], x, y), s2
	}
	if a.op == OMkIf {
		v := a.args[0]
		if a.name == "error" {
			if verb == "%s" || verb == "%v" || verb == "%+v" {
				return v, st
			}
			return mkApp("fmt:"+verb, StrS, a), st
		}
		t := e.P.typeByName[a.name]
		hasM := false
		if t != nil {
			ms := types.NewMethodSet(t)
			for _, m := range []string{"Error", "String"} {
				if s := ms.Lookup(nil, m); s != nil && (verb == "%s" || verb == "%v" || verb == "%+v") {
					sg := s.Type().(*types.Signature)
					if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
						fn := e.P.prog.LookupMethod(t, nil, m)
						if fn != nil && fn.Blocks != nil && (e.P.inRepo(fn) || fn.Synthetic != "") && e.spec == 0 {
							return mkApp("fmt:method:"+fn.String(), StrS, v), st
						}
						hasM = true
					}
				}
				if hasM {
					break
				}
			}
		}
		if hasM {
			return mkApp("fmt:method:"+a.name, StrS, v), st
		}
		switch {
		case v.sort == StrS && (verb == "%s" || verb == "%v" || verb == "%+v"):
			return v, st
		case v.sort == StrS && verb == "%q":
			return mkApp("goquote", StrS, v), st
		case v.sort.K == SSlice && v.sort.Elem == StrS && verb == "%s":
			return mkSlSeq(v), st
		case v.sort == IntS && t != nil && isIntType(t) && (verb == "%d" || verb == "%v"):
			return mkApp("itoa", StrS, v), st
		case v.sort == BoolS && (verb == "%v" || verb == "%t"):
			return mkIte(v, mkStr("true"), mkStr("false")), st
		}
		return mkApp("fmt:"+verb+":"+a.name, StrS, v), st
	}
	return mkApp("fmt:"+verb, StrS, a), st
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
