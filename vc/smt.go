// SMT back end: closed terms to SMT-LIB, with explicit instantiation of the loop operators.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type smt struct {
	native bool // strings and sequences interpreted
	cvc    bool
	decl   strings.Builder
	defs   strings.Builder
	names  map[*Term]string
	funs   map[string]string
	sorts  map[*Sort]string
	strs   map[string]string
	facts  []string
	n      int
	nonlin bool
}

func newSMT(native bool) *smt {
	return &smt{native: native, names: map[*Term]string{}, funs: map[string]string{}, sorts: map[*Sort]string{}, strs: map[string]string{}}
}

func (s *smt) sort(t *Sort) string {
	switch t.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SStr:
		if s.native {
			return "String"
		}
	case SSeq:
		if s.native {
			return "(Seq " + s.sort(t.Elem) + ")"
		}
	}
	if n, ok := s.sorts[t]; ok {
		return n
	}
	n := fmt.Sprintf("S%d", len(s.sorts))
	s.sorts[t] = n
	fmt.Fprintf(&s.decl, "(declare-sort %s 0)\n", n)
	return n
}

func (s *smt) fun(name string, res *Sort, args ...*Sort) string {
	var b strings.Builder
	b.WriteString(name)
	b.WriteString("|" + res.key)
	for _, a := range args {
		b.WriteString("|" + a.key)
	}
	k := b.String()
	if n, ok := s.funs[k]; ok {
		return n
	}
	n := fmt.Sprintf("f%d", len(s.funs))
	s.funs[k] = n
	var as []string
	for _, a := range args {
		as = append(as, s.sort(a))
	}
	rs := s.sort(res)
	fmt.Fprintf(&s.decl, "(declare-fun %s (%s) %s) ; %s\n", n, strings.Join(as, " "), rs, strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return ' '
		}
		return r
	}, name))
	return n
}

func (s *smt) app(name string, res *Sort, args ...*Term) string {
	var ss []*Sort
	var as []string
	for _, a := range args {
		as = append(as, s.enc(a))
		ss = append(ss, a.sort)
	}
	f := s.fun(name, res, ss...)
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func smtStr(x string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(x); i++ {
		c := x[i]
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (s *smt) def(t *Term, body string) string {
	if len(body) < 24 && !strings.HasPrefix(body, "(") {
		s.names[t] = body
		return body
	}
	s.n++
	n := fmt.Sprintf("t%d", s.n)
	fmt.Fprintf(&s.defs, "(define-fun %s () %s %s)\n", n, s.sort(t.sort), body)
	s.names[t] = n
	return n
}

func (s *smt) fact(f string) { fmt.Fprintf(&s.defs, "(assert %s)\n", f) }

func (s *smt) enc(t *Term) string {
	if n, ok := s.names[t]; ok {
		return n
	}
	if t.loose > 0 && t.op != OLam {
		panic("smt: open term " + t.String())
	}
	a := func(i int) string { return s.enc(t.args[i]) }
	isS := func(i int) bool { k := t.args[i].sort.K; return k == SStr }
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInt:
		return smtInt(t.ival)
	case OStrC:
		if s.native {
			return s.def(t, smtStr(t.name))
		}
		n := s.fun("const "+strconv.Quote(t.name), StrS)
		s.names[t] = n
		s.strs[t.name] = n
		s.fact(fmt.Sprintf("(= (%s %s) %d)", s.fun("len", IntS, StrS), n, len(t.name)))
		return n
	case OVar:
		n := s.fun("var "+t.name, t.sort)
		s.names[t] = n
		s.typeFacts(t, n)
		return n
	case OAnd, OOr:
		var as []string
		for i := range t.args {
			as = append(as, a(i))
		}
		return s.def(t, "("+opNames[t.op]+" "+strings.Join(as, " ")+")")
	case ONot:
		return s.def(t, "(not "+a(0)+")")
	case OIte:
		return s.def(t, "(ite "+a(0)+" "+a(1)+" "+a(2)+")")
	case OEq:
		return s.def(t, s.eq(t.args[0], t.args[1], 0))
	case OAdd:
		var as []string
		for i := range t.args {
			if t.coefs[i].Cmp(big.NewInt(1)) == 0 {
				as = append(as, a(i))
			} else {
				as = append(as, "(* "+smtInt(t.coefs[i])+" "+a(i)+")")
			}
		}
		as = append(as, smtInt(t.ival))
		return s.def(t, "(+ "+strings.Join(as, " ")+")")
	case OLe0:
		return s.def(t, "(<= "+a(0)+" 0)")
	case OMul:
		return s.def(t, s.app("mul", IntS, t.args...))
	case OConcat:
		if s.native {
			op := "seq.++"
			if t.sort.K == SStr {
				op = "str.++"
			}
			var as []string
			for i := range t.args {
				as = append(as, a(i))
			}
			return s.def(t, "("+op+" "+strings.Join(as, " ")+")")
		}
		r := a(len(t.args) - 1)
		f := s.fun("cat", t.sort, t.sort, t.sort)
		l := s.fun("len", IntS, t.sort)
		for i := len(t.args) - 2; i >= 0; i-- {
			x := a(i)
			s.n++
			n := fmt.Sprintf("t%d", s.n)
			fmt.Fprintf(&s.defs, "(define-fun %s () %s (%s %s %s))\n", n, s.sort(t.sort), f, x, r)
			s.fact(fmt.Sprintf("(= (%s %s) (+ (%s %s) (%s %s)))", l, n, l, x, l, r))
			s.fact(fmt.Sprintf("(and (>= (%s %s) 0) (>= (%s %s) 0))", l, x, l, r))
			r = n
		}
		s.names[t] = r
		return r
	case OEmpty:
		if s.native {
			if t.sort.K == SStr {
				return `""`
			}
			return s.def(t, "(as seq.empty "+s.sort(t.sort)+")")
		}
		n := s.fun("empty", t.sort)
		s.names[t] = n
		s.fact(fmt.Sprintf("(= (%s %s) 0)", s.fun("len", IntS, t.sort), n))
		return n
	case OUnit:
		if s.native {
			return s.def(t, "(seq.unit "+a(0)+")")
		}
		r := s.def(t, s.app("unit", t.sort, t.args[0]))
		s.fact(fmt.Sprintf("(= (%s %s) 1)", s.fun("len", IntS, t.sort), r))
		return r
	case OLen:
		if s.native {
			op := "seq.len"
			if isS(0) {
				op = "str.len"
			}
			return s.def(t, "("+op+" "+a(0)+")")
		}
		r := s.def(t, s.app("len", IntS, t.args[0]))
		s.fact("(>= " + r + " 0)")
		return r
	case ONth:
		if s.native && t.args[0].sort.K == SSeq {
			r := s.def(t, "(seq.nth "+a(0)+" "+a(1)+")")
			s.typeFacts(t, r)
			return r
		}
		r := s.def(t, s.app("nth", t.sort, t.args...))
		s.typeFacts(t, r)
		return r
	case OSub:
		if s.native {
			op := "seq.extract"
			if isS(0) {
				op = "str.substr"
			}
			return s.def(t, "("+op+" "+a(0)+" "+a(1)+" "+a(2)+")")
		}
		r := s.def(t, s.app("sub", t.sort, t.args...))
		l := s.fun("len", IntS, t.sort)
		x, o, n := a(0), a(1), a(2)
		s.fact(fmt.Sprintf("(=> (and (<= 0 %s) (<= 0 %s) (<= (+ %s %s) (%s %s))) (= (%s %s) %s))", o, n, o, n, l, x, l, r, n))
		return r
	case OCode:
		if s.native && isS(0) {
			r := s.def(t, "(str.to_code (str.at "+a(0)+" "+a(1)+"))")
			s.fact("(<= " + r + " 255)")
			return r
		}
		r := s.def(t, s.app("code", IntS, t.args...))
		s.fact("(and (<= (- 1) " + r + ") (<= " + r + " 255))")
		return r
	case OFromCode:
		if s.native {
			return s.def(t, "(str.from_code "+a(0)+")")
		}
		r := s.def(t, s.app("chr", StrS, t.args[0]))
		s.fact(fmt.Sprintf("(= (%s %s) 1)", s.fun("len", IntS, StrS), r))
		return r
	case OMk:
		r := s.def(t, s.app("mk:"+t.sort.key, t.sort, t.args...))
		for i := range t.args {
			s.fact(fmt.Sprintf("(= (%s %s) %s)", s.fun("sel:"+strconv.Itoa(i), t.args[i].sort, t.sort), r, a(i)))
		}
		return r
	case OMkSl:
		r := s.def(t, s.app("mksl", t.sort, t.args...))
		s.fact(fmt.Sprintf("(= (%s %s) %s)", s.fun("isnil", BoolS, t.sort), r, a(0)))
		s.fact(fmt.Sprintf("(= (%s %s) %s)", s.fun("seq", t.args[1].sort, t.sort), r, a(1)))
		return r
	case OSlNil:
		r := s.def(t, s.app("isnil", BoolS, t.args...))
		sq := mkSlSeq(t.args[0])
		s.fact("(=> " + r + " (= " + s.enc(mkLen(sq)) + " 0))")
		return r
	case OSlSeq:
		return s.def(t, s.app("seq", t.sort, t.args...))
	case OIfNil:
		n := s.fun("ifnil", IfaceS)
		s.names[t] = n
		s.fact(fmt.Sprintf("(= (%s %s) 0)", s.fun("tag", IntS, IfaceS), n))
		return n
	case OMkIf:
		r := s.def(t, s.app("mkif:"+t.name, IfaceS, t.args...))
		s.fact(fmt.Sprintf("(= (%s %s) %d)", s.fun("tag", IntS, IfaceS), r, typeID(t.name)))
		s.fact(fmt.Sprintf("(= (%s %s) %s)", s.fun("ifval:"+t.name, t.args[0].sort, IfaceS), r, a(0)))
		return r
	case OTag:
		x := a(0)
		r := s.def(t, s.app("tag", IntS, t.args...))
		s.fact(fmt.Sprintf("(= (= %s %s) (= %s 0))", x, s.enc(IfNil), r))
		s.fact("(>= " + r + " 0)")
		return r
	case OIfVal:
		r := s.def(t, s.app("ifval:"+t.name, t.sort, t.args...))
		s.typeFacts(t, r)
		return r
	case OSel:
		r := s.def(t, s.app("sel:"+t.name, t.sort, t.args...))
		s.typeFacts(t, r)
		return r
	case OSelect:
		r := s.def(t, s.app("select", t.sort, t.args...))
		s.typeFacts(t, r)
		return r
	case OStore:
		return s.def(t, s.app("store", t.sort, t.args...))
	case OUpd:
		r := s.def(t, s.app("upd", t.sort, t.args...))
		if !s.native {
			l := s.fun("len", IntS, t.sort)
			s.fact(fmt.Sprintf("(= (%s %s) (%s %s))", l, r, l, a(0)))
		} else {
			s.fact(fmt.Sprintf("(= (seq.len %s) (seq.len %s))", r, a(0)))
		}
		return r
	case OFresh:
		r := s.def(t, s.app("fresh:"+t.name, IntS, t.args...))
		s.fact("(< " + r + " 0)")
		return r
	case OEx:
		k := raw(OFirst, IntS, "", t.args[0], t.args[1])
		return s.def(t, "(< "+s.enc(k)+" "+a(0)+")")
	case OFirst, OFirstU, OFlatMap, OSum, OHFill, OIter, OLam:
		n := s.fun(fmt.Sprintf("%s#%d", opNames[t.op], t.id), t.sort)
		s.names[t] = n
		return n
	case OTup:
		return s.def(t, s.app("tup"+strconv.Itoa(len(t.args)), TupS, t.args...))
	case OApp:
		if s.native && len(t.args) > 0 && t.args[0].sort == StrS {
			switch t.name {
			case "contains":
				return s.def(t, "(str.contains "+a(0)+" "+a(1)+")")
			case "prefixof":
				return s.def(t, "(str.prefixof "+a(0)+" "+a(1)+")")
			case "suffixof":
				return s.def(t, "(str.suffixof "+a(0)+" "+a(1)+")")
			case "indexof":
				return s.def(t, "(str.indexof "+a(0)+" "+a(1)+" 0)")
			case "strlt":
				return s.def(t, "(str.< "+a(0)+" "+a(1)+")")
			case "replaceall":
				if t.args[1].op == OStrC && t.args[1].name != "" {
					return s.def(t, "(str.replace_all "+a(0)+" "+a(1)+" "+a(2)+")")
				}
			case "replace1":
				if t.args[1].op == OStrC && t.args[1].name != "" {
					return s.def(t, "(str.replace "+a(0)+" "+a(1)+" "+a(2)+")")
				}
			}
		}
		switch t.name {
		case "wrap:8u":
			return s.def(t, "(mod "+a(0)+" 256)")
		case "wrap:16u":
			return s.def(t, "(mod "+a(0)+" 65536)")
		}
		if t.name == "bit" {
			return s.def(t, "(= (mod (div "+a(0)+" "+new(big.Int).Lsh(big1, uint(t.args[1].ival.Int64())).String()+") 2) 1)")
		}
		r := s.def(t, s.app("app:"+t.name, t.sort, t.args...))
		s.typeFacts(t, r)
		return r
	}
	panic("smt: " + opNames[t.op])
}

func (s *smt) typeFacts(t *Term, n string) {
	switch t.sort.K {
	case SStr, SSeq:
		if !s.native {
			s.fact(fmt.Sprintf("(>= (%s %s) 0)", s.fun("len", IntS, t.sort), n))
			e := s.enc(emptyOf(t.sort))
			s.fact(fmt.Sprintf("(=> (= (%s %s) 0) (= %s %s))", s.fun("len", IntS, t.sort), n, n, e))
		}
	}
}

func emptyOf(so *Sort) *Term {
	if so.K == SStr {
		return mkStr("")
	}
	return mkEmpty(so)
}

func (s *smt) eq(x, y *Term, d int) string {
	if x.sort.K == SStruct && d < 4 && len(x.sort.Fields) > 0 && len(x.sort.Fields) <= 40 {
		var cs []string
		for i := range x.sort.Fields {
			cs = append(cs, s.eq(mkSel(x, i), mkSel(y, i), d+1))
		}
		if len(cs) == 1 {
			return cs[0]
		}
		return "(and " + strings.Join(cs, " ") + ")"
	}
	if x.sort.K == SSlice {
		return "(and " + s.eq(mkSlNil(x), mkSlNil(y), d+1) + " " + s.eq(mkSlSeq(x), mkSlSeq(y), d+1) + ")"
	}
	return "(= " + s.enc(x) + " " + s.enc(y) + ")"
}

func (s *smt) text(asserts []*Term, head string) string {
	var as strings.Builder
	for _, t := range asserts {
		as.WriteString("(assert " + s.enc(t) + ")\n")
	}
	if !s.native && len(s.strs) > 1 {
		var ns []string
		for _, k := range sortedKeysS(s.strs) {
			ns = append(ns, s.strs[k])
		}
		as.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
	}
	return head + s.decl.String() + s.defs.String() + as.String() + "(check-sat)\n"
}

func sortedKeysS(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeysB(b)
}

// ---- instantiation of the loop operators

type quant struct {
	axioms []*Term
	seenAx map[*Term]bool
	done   map[string]bool
	sk     int
	extra  []string
	n      int
}

func (q *quant) add(t *Term) {
	if t == True || q.seenAx[t] || t.size > 2000000 {
		return
	}
	q.seenAx[t] = true
	q.axioms = append(q.axioms, t)
	q.n++
}

func ins(lam *Term, args ...*Term) *Term { return inst(lam, args...) }

// expand returns valid facts about the loop operators in the formulas.
func expand(fs []*Term, rounds, budget int) []*Term {
	q := &quant{seenAx: map[*Term]bool{}, done: map[string]bool{}}
	pairDone := map[[2]*Term]bool{}
	type kc struct{ k, t *Term }
	instDone := map[kc]bool{}
	firstDone := map[*Term]bool{}
	terms0 := termCount
	grown := func() bool { return termCount-terms0 > 600000 }
	trig := map[*Term][]*Term{}
	triggers := func(lam *Term) []*Term {
		if ts, ok := trig[lam]; ok {
			return ts
		}
		ts := []*Term{}
		if len(lam.bs) == 1 {
			walk(lam.args[0], map[*Term]bool{}, func(x *Term) {
				if (x.op == ONth || x.op == OCode) && x.args[0].loose == 0 && x.args[1].op == OBV && x.args[1].name == "0" {
					ts = append(ts, x.args[0])
				}
			})
		}
		trig[lam] = ts
		return ts
	}
	at := map[[2]*Term]bool{} // sequence, index
	loose := false
	matches := func(lam, t *Term) bool {
		ts := triggers(lam)
		if len(ts) == 0 || loose {
			return true
		}
		for _, s := range ts {
			if at[[2]*Term{s, t}] {
				return true
			}
		}
		return false
	}
	for r := 0; r < rounds && !grown(); r++ {
		start := len(q.axioms)
		seen := map[*Term]bool{}
		var firsts, seqs, iters []*Term
		var lams []*Term
		idx := map[*Term]bool{}
		var idxs []*Term
		addIdx := func(t *Term) {
			if t.loose == 0 && !idx[t] && t.size < 400 {
				idx[t] = true
				idxs = append(idxs, t)
			}
		}
		visit := func(t *Term) {
			if t.loose > 0 {
				return
			}
			switch t.op {
			case OFirst, OFirstU:
				firsts = append(firsts, t)
				addIdx(t)
			case OEx:
				k := raw(OFirst, IntS, "", t.args[0], t.args[1])
				if !seen[k] {
					seen[k] = true
					firsts = append(firsts, k)
					addIdx(k)
				}
			case OLen:
				em := emptyOf(t.args[0].sort)
				if t.args[0].op != OStrC && t.args[0].op != OEmpty {
					l, ee := raw(OLe0, BoolS, "", t), raw(OEq, BoolS, "", t.args[0], em)
					q.add(raw(OOr, BoolS, "", mkNotRaw(l), ee))
					q.add(raw(OOr, BoolS, "", mkNotRaw(ee), l))
				}
			case OSub:
				s, off, n := t.args[0], t.args[1], t.args[2]
				q.add(raw(OOr, BoolS, "", mkNotRaw(raw(OEq, BoolS, "", off, mkInt(0))), mkNotRaw(raw(OEq, BoolS, "", n, mkLen(s))), raw(OEq, BoolS, "", t, s)))
			case OFlatMap, OSum:
				seqs = append(seqs, t)
			case OIter, OHFill:
				iters = append(iters, t)
			case OLam:
				lams = append(lams, t)
			case ONth, OCode, OUpd:
				addIdx(t.args[1])
				at[[2]*Term{t.args[0], t.args[1]}] = true
			case OApp:
				switch t.name {
				case "indexof", "lastindexof", "indexfunc", "lastindexfunc":
					n := mkInt(1)
					if strings.HasSuffix(t.name, "of") {
						n = mkLen(t.args[1])
					}
					q.add(raw(OLe0, BoolS, "", mkAdd(mkNeg(t), mkInt(-1))))
					q.add(raw(OOr, BoolS, "", raw(OLe0, BoolS, "", mkAdd(t, mkInt(1))), raw(OLe0, BoolS, "", mkSubI(mkAdd(t, n), mkLen(t.args[0])))))
				case "trimspace", "trimfunc", "trimleftfunc", "trimrightfunc", "trimsuffix", "trimprefix":
					q.add(raw(OLe0, BoolS, "", mkSubI(mkLen(t), mkLen(t.args[0]))))
				}
			case OVar:
				if t.sort == IntS && strings.Contains(t.name, "k!") {
					addIdx(t)
					q.add(raw(OLe0, BoolS, "", mkNeg(t))) // an iteration count
				}
			}
		}
		for _, f := range fs {
			walkGround(f, seen, visit)
		}
		for _, f := range q.axioms {
			walkGround(f, seen, visit)
		}
		sk := func(s *Sort, p string) *Term {
			q.sk++
			return freshVar("sk!"+p, s)
		}
		for _, k := range firsts {
			if len(q.axioms) > budget || grown() {
				break
			}
			if !firstDone[k] {
				firstDone[k] = true
				var in *Term = True
				lam := k.args[len(k.args)-1]
				// emitted with raw constructors: the simplifier knows these facts already
				q.add(raw(OLe0, BoolS, "", mkNeg(k)))
				if k.op == OFirst {
					n := k.args[0]
					in = raw(OLe0, BoolS, "", mkAdd(mkSubI(k, n), mkInt(1)))
					q.add(raw(OOr, BoolS, "", raw(OLe0, BoolS, "", mkSubI(k, n)), raw(OEq, BoolS, "", k, mkInt(0))))
				}
				b := ins(lam, k)
				if b != True {
					q.add(raw(OOr, BoolS, "", mkNotRaw(in), b, False))
				}
			}
		}
		for _, k := range firsts {
			lam := k.args[len(k.args)-1]
			for _, t := range idxs {
				if t == k || instDone[kc{k, t}] || !matches(lam, t) || len(q.axioms) > budget || grown() {
					continue
				}
				instDone[kc{k, t}] = true
				b := ins(lam, t)
				if b == False {
					continue
				}
				inr := raw(OAnd, BoolS, "", raw(OLe0, BoolS, "", mkNeg(t)), raw(OLe0, BoolS, "", mkAdd(mkSubI(t, k), mkInt(1))))
				q.add(raw(OOr, BoolS, "", mkNotRaw(inr), mkNotRaw(b)))
			}
		}
		for i, a := range seqs {
			if !firstDone[a] {
				firstDone[a] = true
				n, lam := a.args[0], a.args[1]
				if a.op == OFlatMap {
					em := emptyOf(a.sort)
					q.add(raw(OOr, BoolS, "", mkNotRaw(raw(OLe0, BoolS, "", n)), raw(OEq, BoolS, "", a, em)))
					// nonempty => some piece is nonempty
					j := sk(IntS, "fm")
					q.add(raw(OOr, BoolS, "", raw(OEq, BoolS, "", a, em), raw(OAnd, BoolS, "", mkLe(mkInt(0), j), raw(OLe0, BoolS, "", mkAdd(mkSubI(j, n), mkInt(1))), mkNot(mkIsEmpty(ins(lam, j))))))
				} else {
					q.add(raw(OOr, BoolS, "", mkNotRaw(raw(OLe0, BoolS, "", n)), raw(OEq, BoolS, "", a, mkInt(0))))
				}
			}
			for _, b := range seqs[i+1:] {
				if a.sort != b.sort || a.op != b.op || pairDone[[2]*Term{a, b}] || len(q.axioms) > budget || grown() {
					continue
				}
				pairDone[[2]*Term{a, b}] = true
				j := sk(IntS, "ext")
				x, y := ins(a.args[1], j), ins(b.args[1], j)
				d := mkNot(mkEq(x, y))
				if d == False {
					q.add(raw(OOr, BoolS, "", raw(OEq, BoolS, "", a, b), mkNotRaw(raw(OEq, BoolS, "", a.args[0], b.args[0]))))
					continue
				}
				q.add(raw(OOr, BoolS, "", raw(OEq, BoolS, "", a, b), mkNotRaw(raw(OEq, BoolS, "", a.args[0], b.args[0])),
					raw(OAnd, BoolS, "", mkLe(mkInt(0), j), mkLt(j, a.args[0]), d)))
			}
			// empty concatenation: every piece is empty
			if a.op == OFlatMap {
				for _, t := range idxs {
					if instDone[kc{a, t}] || !matches(a.args[1], t) || len(q.axioms) > budget || grown() {
						continue
					}
					instDone[kc{a, t}] = true
					em := mkIsEmpty(ins(a.args[1], t))
					if em == True {
						continue
					}
					inr := raw(OAnd, BoolS, "", raw(OLe0, BoolS, "", mkNeg(t)), raw(OLe0, BoolS, "", mkAdd(mkSubI(t, a.args[0]), mkInt(1))))
					q.add(raw(OOr, BoolS, "", mkNotRaw(inr), mkNotRaw(raw(OEq, BoolS, "", a, emptyOf(a.sort))), em))
				}
			}
		}
		for i, a := range lams {
			for _, b := range lams[i+1:] {
				if pairDone[[2]*Term{a, b}] || len(a.bs) != len(b.bs) || a.args[0].sort != b.args[0].sort || len(q.axioms) > budget || grown() {
					continue
				}
				ok := true
				for j := range a.bs {
					ok = ok && a.bs[j] == b.bs[j]
				}
				if !ok || a.args[0].op == OTup {
					continue
				}
				pairDone[[2]*Term{a, b}] = true
				var js []*Term
				for _, s := range a.bs {
					js = append(js, sk(s, "lam"))
				}
				d := mkNot(mkEq(ins(a, js...), ins(b, js...)))
				q.add(raw(OOr, BoolS, "", raw(OEq, BoolS, "", a, b), d, False))
			}
		}
		for i, a := range iters {
			for _, b := range iters[i+1:] {
				if a.op != b.op || a.sort != b.sort || len(a.args) != len(b.args) || pairDone[[2]*Term{a, b}] || len(q.axioms) > budget || grown() {
					continue
				}
				if a.op == OHFill && len(a.args) == 5 {
					continue
				}
				if a.op == OHFill {
					pairDone[[2]*Term{a, b}] = true
					j := sk(IntS, "hf")
					q.add(raw(OOr, BoolS, "", raw(OEq, BoolS, "", a, b), mkNotRaw(raw(OEq, BoolS, "", a.args[0], b.args[0])), mkNotRaw(raw(OEq, BoolS, "", a.args[1], b.args[1])),
						raw(OAnd, BoolS, "", mkLe(mkInt(0), j), mkLt(j, a.args[1]), raw(OOr, BoolS, "", mkNot(mkEq(ins(a.args[2], j), ins(b.args[2], j))), mkNot(mkEq(ins(a.args[3], j), ins(b.args[3], j)))))))
					continue
				}
				if a.name != b.name {
					continue
				}
				same := true
				for j := range a.args[1].bs {
					same = same && a.args[1].bs[j] == b.args[1].bs[j]
				}
				if !same {
					continue
				}
				pairDone[[2]*Term{a, b}] = true
				js := []*Term{sk(IntS, "it")}
				for _, x := range a.args[2:] {
					js = append(js, sk(x.sort, "it"))
				}
				ta, tb := ins(a.args[1], js...), ins(b.args[1], js...)
				var ds []*Term
				for j := range ta.args {
					ds = append(ds, mkNot(mkEq(ta.args[j], tb.args[j])))
				}
				ts := []*Term{raw(OEq, BoolS, "", a, b), mkNotRaw(raw(OEq, BoolS, "", a.args[0], b.args[0]))}
				for j := 2; j < len(a.args); j++ {
					ts = append(ts, mkNot(mkEq(a.args[j], b.args[j])))
				}
				ts = append(ts, mkAnd(mkLe(mkInt(0), js[0]), mkLt(js[0], a.args[0]), mkOr(ds...)))
				q.add(raw(OOr, BoolS, "", ts...))
			}
		}
		if len(q.axioms) == start {
			if loose || rounds < 4 {
				break
			}
			loose = true
		}
	}
	return q.axioms
}

func mkNotRaw(t *Term) *Term { return raw(ONot, BoolS, "", t) }

// walkGround visits closed subterms outside binders (binder bodies only through instantiation); the lambda itself is visited.
func walkGround(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	switch t.op {
	case OLam:
		return
	case OEx, OFirst, OFlatMap, OSum:
		walkGround(t.args[0], seen, f)
		return
	case OFirstU:
		return
	case OIter:
		for i, a := range t.args {
			if i != 1 {
				walkGround(a, seen, f)
			}
		}
		return
	case OHFill:
		walkGround(t.args[0], seen, f)
		walkGround(t.args[1], seen, f)
		return
	}
	for _, a := range t.args {
		walkGround(a, seen, f)
	}
}

// ---- running solvers

type solveRes struct {
	verdict string
	by      string
	t       float64
}

var solverTime float64
var solverMu sync.Mutex

func runSolver(ctx context.Context, argv []string, text string) solveRes {
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0).Seconds()
	solverMu.Lock()
	solverTime += d
	solverMu.Unlock()
	v := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			v = l
			break
		}
		if strings.Contains(l, "error") && !strings.Contains(l, "timeout") {
			v = "error"
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, l)
				os.WriteFile("/tmp/vc_err.smt2", []byte(text), 0644)
			}
			break
		}
	}
	return solveRes{v, argv[0], d}
}

type job struct {
	name string
	argv func(sec int) []string
	text string
}

const wallFactor = 4

// portfolio runs the jobs concurrently; the first unsat wins (sat from a relaxed encoding proves nothing).
func portfolio(jobs []job, sec int) solveRes {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(wallFactor*sec+1)*time.Second)
	defer cancel()
	ch := make(chan solveRes, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			// the limit is on processor time, so that a busy machine does not turn into an alarm
			r := runSolver(ctx, append([]string{"sh", "-c", "ulimit -t " + strconv.Itoa(sec+1) + "; exec \"$0\" \"$@\""}, j.argv(sec)...), j.text)
			r.by = j.name
			ch <- r
		}(j)
	}
	best := solveRes{verdict: "unknown"}
	for range jobs {
		r := <-ch
		if r.verdict == "unsat" {
			return r
		}
		if r.verdict == "sat" {
			best = r
		}
	}
	return best
}

var argvZ3 = func(sec int) []string { return []string{"z3", "-in", "-T:" + strconv.Itoa(wallFactor*sec)} }
var argvZ3n = func(sec int) []string { return []string{"z3-new", "-in", "-T:" + strconv.Itoa(wallFactor*sec)} }
var argvCvc = func(sec int) []string {
	return []string{"cvc5", "--lang=smt2", "--strings-exp", "--tlimit=" + strconv.Itoa(wallFactor*sec*1000)}
}
