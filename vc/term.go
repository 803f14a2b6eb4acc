// Terms: hash-consed, simplified on construction (smart constructors in simp.go).
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SK int

const (
	SBool SK = iota
	SInt
	SStr
	SSeq
	SStruct
	SSlice
	SIface
	SFlt
	SArr
	SLam
	STup
	SOpq
)

type Sort struct {
	K      SK
	Elem   *Sort
	Name   string
	Fields []*Sort
	FNames []string
	key    string
	GoT    types.Type
}

var sortTab = map[string]*Sort{}

func internSort(s *Sort) *Sort {
	if o, ok := sortTab[s.key]; ok {
		return o
	}
	sortTab[s.key] = s
	return s
}

var (
	BoolS  = internSort(&Sort{K: SBool, key: "Bool", Name: "Bool"})
	IntS   = internSort(&Sort{K: SInt, key: "Int", Name: "Int"})
	StrS   = internSort(&Sort{K: SStr, key: "Str", Name: "Str"})
	IfaceS = internSort(&Sort{K: SIface, key: "Iface", Name: "Iface"})
	FltS   = internSort(&Sort{K: SFlt, key: "Flt", Name: "Flt"})
	LamS   = internSort(&Sort{K: SLam, key: "Lam", Name: "Lam"})
	TupS   = internSort(&Sort{K: STup, key: "Tup", Name: "Tup"})
)

func SeqOf(e *Sort) *Sort {
	return internSort(&Sort{K: SSeq, Elem: e, key: "Seq<" + e.key + ">"})
}

// Slice of element sort e; contents are a Seq (or Str for bytes).
func SliceOf(content *Sort) *Sort {
	return internSort(&Sort{K: SSlice, Elem: content, key: "Slice<" + content.key + ">"})
}
func ArrOf(v *Sort) *Sort { return internSort(&Sort{K: SArr, Elem: v, key: "Arr<" + v.key + ">"}) }
func OpqOf(n string) *Sort {
	return internSort(&Sort{K: SOpq, key: "Opq<" + n + ">", Name: n})
}

func (s *Sort) String() string { return s.key }

type Op int

const (
	OVar  Op = iota
	OBV      // bound variable; name = index
	OInt     // integer constant
	OStrC    // string constant
	OTrue
	OFalse
	OAnd
	OOr
	ONot
	OIte
	OEq
	OAdd // args: t1..tn with coefficients in coefs; const in ival
	OLe0 // lin <= 0
	OMul // nonlinear
	OConcat
	OEmpty // empty seq
	OUnit
	OLen
	ONth // seq, idx
	OSub // seq/str, off, len
	OCode
	OFromCode
	OMk  // struct
	OSel // name= index
	OMkSl
	OSlNil
	OSlSeq
	OIfNil
	OMkIf // name = type
	OTag
	OIfVal // name = type
	OSelect
	OStore
	OApp
	OLam
	OFirst   // n, lam ; n may be absent => unbounded
	OFirstU  // lam
	OEx      // n, lam
	OFlatMap // n, lam
	OSum     // n, lam
	OHFill   // heap0, n, lam ref, lam val
	OIter    // name = leaf index; args k, lam(tuple), inits...
	OTup
	OUpd   // seq, idx, v
	OFresh // name = site; args = iteration indexes : Int
)

var opNames = map[Op]string{OVar: "var", OBV: "bv", OInt: "int", OStrC: "str", OTrue: "true", OFalse: "false", OAnd: "and", OOr: "or", ONot: "not", OIte: "ite", OEq: "=", OAdd: "+", OLe0: "le0", OMul: "*", OConcat: "++", OEmpty: "[]", OUnit: "unit", OLen: "len", ONth: "nth", OSub: "sub", OCode: "code", OFromCode: "chr", OMk: "mk", OSel: "sel", OMkSl: "mksl", OSlNil: "isnil", OSlSeq: "seq", OIfNil: "ifnil", OMkIf: "mkif", OTag: "tag", OIfVal: "ifval", OSelect: "select", OStore: "store", OApp: "app", OLam: "lam", OFirst: "first", OFirstU: "firstu", OEx: "ex", OFlatMap: "flatmap", OSum: "sum", OHFill: "hfill", OIter: "iter", OTup: "tup", OUpd: "upd", OFresh: "fresh"}

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	name  string
	ival  *big.Int
	coefs []*big.Int
	bs    []*Sort // binder sorts for OLam
	loose int     // 1 + max loose BV index (0 = closed)
	size  int
	vars  map[*Term]bool // lazily computed free vars
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.sort.key)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(len(t.name)))
	b.WriteByte(':')
	b.WriteString(t.name)
	if t.ival != nil {
		b.WriteByte('|')
		b.WriteString(t.ival.String())
	}
	for _, c := range t.coefs {
		b.WriteByte('*')
		b.WriteString(c.String())
	}
	for _, s := range t.bs {
		b.WriteByte('^')
		b.WriteString(s.key)
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	lo := 0
	t.size = 1
	for _, a := range t.args {
		if a.loose > lo {
			lo = a.loose
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if t.op == OBV {
		i, _ := strconv.Atoi(t.name)
		lo = i + 1
	}
	if t.op == OLam {
		lo -= len(t.bs)
		if lo < 0 {
			lo = 0
		}
	}
	t.loose = lo
	termTab[k] = t
	return t
}

func raw(op Op, s *Sort, name string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: s, name: name, args: args})
}

var True = raw(OTrue, BoolS, "")
var False = raw(OFalse, BoolS, "")
var IfNil = raw(OIfNil, IfaceS, "")

func mkVar(name string, s *Sort) *Term { return raw(OVar, s, name) }

var freshN int

func freshVar(prefix string, s *Sort) *Term {
	freshN++
	return raw(OVar, s, fmt.Sprintf("%s!%d", prefix, freshN))
}
func mkBV(i int, s *Sort) *Term { return raw(OBV, s, strconv.Itoa(i)) }
func mkInt(i int64) *Term       { return mkBig(big.NewInt(i)) }
func mkBig(i *big.Int) *Term {
	return intern(&Term{op: OInt, sort: IntS, ival: new(big.Int).Set(i)})
}
func mkStr(s string) *Term { return raw(OStrC, StrS, s) }
func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool {
	switch t.op {
	case OInt, OStrC, OTrue, OFalse, OIfNil:
		return true
	case OEmpty:
		return true
	}
	return false
}

// ---- substitution, binders

// rebuild reconstructs t with new args through smart constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OVar, OBV, OInt, OStrC, OTrue, OFalse, OIfNil, OEmpty:
		return t
	case OAnd:
		return mkAnd(args...)
	case OOr:
		return mkOr(args...)
	case ONot:
		return mkNot(args[0])
	case OIte:
		return mkIte(args[0], args[1], args[2])
	case OEq:
		return mkEq(args[0], args[1])
	case OAdd:
		l := newLin()
		l.addConst(t.ival)
		for i, a := range args {
			l.addTerm(t.coefs[i], a)
		}
		return l.term()
	case OLe0:
		return mkLe0(args[0])
	case OMul:
		return mkMul(args[0], args[1])
	case OConcat:
		return mkConcat(t.sort, args...)
	case OUnit:
		return mkUnit(args[0])
	case OLen:
		return mkLen(args[0])
	case ONth:
		return mkNth(args[0], args[1])
	case OSub:
		return mkSub(args[0], args[1], args[2])
	case OCode:
		return mkCode(args[0], args[1])
	case OFromCode:
		return mkFromCode(args[0])
	case OMk:
		return mkMk(t.sort, args...)
	case OSel:
		i, _ := strconv.Atoi(t.name)
		return mkSel(args[0], i)
	case OMkSl:
		return mkSl(args[0], args[1])
	case OSlNil:
		return mkSlNil(args[0])
	case OSlSeq:
		return mkSlSeq(args[0])
	case OMkIf:
		return mkMkIf(t.name, args[0])
	case OTag:
		return mkTag(args[0])
	case OIfVal:
		return mkIfVal(t.name, t.sort, args[0])
	case OSelect:
		return mkSelect(args[0], args[1])
	case OStore:
		return mkStore(args[0], args[1], args[2])
	case OApp:
		return mkApp(t.name, t.sort, args...)
	case OLam:
		return mkLamRaw(t.bs, args[0])
	case OFirst:
		return mkFirst(args[0], args[1])
	case OFirstU:
		return raw(OFirstU, IntS, "", args[0])
	case OEx:
		return mkEx(args[0], args[1])
	case OFlatMap:
		return mkFlatMap(args[0], args[1])
	case OSum:
		return mkSum(args[0], args[1])
	case OHFill:
		return mkHFill(args[0], args[1], args[2], args[3], args[4:]...)
	case OIter:
		return mkIter(t.name, t.sort, args)
	case OTup:
		return raw(OTup, TupS, "", args...)
	case OUpd:
		return mkUpd(args[0], args[1], args[2])
	case OFresh:
		return raw(OFresh, IntS, t.name, args...)
	}
	panic("rebuild: " + opNames[t.op])
}

func mkLamRaw(bs []*Sort, body *Term) *Term {
	return intern(&Term{op: OLam, sort: LamS, bs: bs, args: []*Term{body}})
}

// shift loose BVs >= cutoff by d.
func shift(t *Term, d, cutoff int) *Term {
	if d == 0 || t.loose <= cutoff {
		return t
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, c int) *Term
	rec = func(t *Term, c int) *Term {
		if t.loose <= c {
			return t
		}
		k := [2]int{t.id, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		if t.op == OBV {
			i, _ := strconv.Atoi(t.name)
			r = mkBV(i+d, t.sort)
		} else {
			cc := c
			if t.op == OLam {
				cc += len(t.bs)
			}
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a, cc)
			}
			r = rebuild(t, args)
		}
		memo[k] = r
		return r
	}
	return rec(t, cutoff)
}

// mkLam abstracts the free variables vs (all OVar) in body.
func mkLam(vs []*Term, body *Term) *Term {
	m := map[*Term]int{}
	bs := make([]*Sort, len(vs))
	for i, v := range vs {
		// first var gets the highest index
		m[v] = len(vs) - 1 - i
		bs[i] = v.sort
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t.op == OVar {
			if i, ok := m[t]; ok {
				return mkBV(i+d, t.sort)
			}
			return t
		}
		if len(t.args) == 0 {
			if t.op == OBV && t.loose > d {
				i, _ := strconv.Atoi(t.name)
				return mkBV(i+len(vs), t.sort)
			}
			return t
		}
		if t.loose <= d && !anyVar(t, m) {
			return t
		}
		k := [2]int{t.id, d}
		if r, ok := memo[k]; ok {
			return r
		}
		dd := d
		if t.op == OLam {
			dd += len(t.bs)
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a, dd)
		}
		r := rebuild(t, args)
		memo[k] = r
		return r
	}
	return mkLamRaw(bs, rec(body, 0))
}

func freeVars(t *Term) map[*Term]bool {
	if t.vars != nil {
		return t.vars
	}
	r := map[*Term]bool{}
	if t.op == OVar {
		r[t] = true
	}
	for _, a := range t.args {
		for v := range freeVars(a) {
			r[v] = true
		}
	}
	if len(t.args) == 1 && t.op != OVar {
		r = freeVars(t.args[0])
	}
	t.vars = r
	return r
}
func anyVar(t *Term, m map[*Term]int) bool {
	fv := freeVars(t)
	if len(m) < len(fv) {
		for v := range m {
			if fv[v] {
				return true
			}
		}
		return false
	}
	for v := range fv {
		if _, ok := m[v]; ok {
			return true
		}
	}
	return false
}
func hasVar(t, v *Term) bool { return freeVars(t)[v] }

// apply a lambda to arguments.
func inst(lam *Term, args ...*Term) *Term {
	if lam.op != OLam || len(lam.bs) != len(args) {
		panic(fmt.Sprintf("inst: bad lambda %v / %d args", lam, len(args)))
	}
	n := len(args)
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t.loose <= d {
			return t
		}
		k := [2]int{t.id, d}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		if t.op == OBV {
			i, _ := strconv.Atoi(t.name)
			switch {
			case i < d:
				r = t
			case i < d+n:
				r = shift(args[n-1-(i-d)], d, 0)
			default:
				r = mkBV(i-n, t.sort)
			}
		} else {
			dd := d
			if t.op == OLam {
				dd += len(t.bs)
			}
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a, dd)
			}
			r = rebuild(t, as)
		}
		memo[k] = r
		return r
	}
	return rec(lam.args[0], 0)
}

// substitute free variables (or arbitrary subterms) by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	allVars := true
	for k := range m {
		if k.op != OVar {
			allVars = false
		}
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if r, ok := m[t]; ok {
			return shift(r, d, 0)
		}
		if len(t.args) == 0 {
			return t
		}
		if allVars {
			hit := false
			fv := freeVars(t)
			if len(m) < len(fv) {
				for v := range m {
					if fv[v] {
						hit = true
						break
					}
				}
			} else {
				for v := range fv {
					if _, ok := m[v]; ok {
						hit = true
						break
					}
				}
			}
			if !hit {
				return t
			}
		}
		k := [2]int{t.id, d}
		if r, ok := memo[k]; ok {
			return r
		}
		dd := d
		if t.op == OLam {
			dd += len(t.bs)
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a, dd)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[k] = r
		return r
	}
	return rec(t, 0)
}

// all subterms (not entering binders when closedOnly).
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walk(a, seen, f)
	}
}

// ---- printing

func (t *Term) String() string {
	b := 20000
	return t.str(0, &b)
}
func (t *Term) str(d int, budget *int) string {
	if d > 60 || *budget < 0 {
		return "…"
	}
	*budget -= 5
	switch t.op {
	case OVar:
		*budget -= len(t.name)
		return t.name
	case OBV:
		return "#" + t.name
	case OInt:
		return t.ival.String()
	case OStrC:
		*budget -= len(t.name)
		return strconv.Quote(t.name)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OAdd:
		var p []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, a.str(d+1, budget))
			} else {
				p = append(p, t.coefs[i].String()+"*"+a.str(d+1, budget))
			}
		}
		if t.ival.Sign() != 0 {
			p = append(p, t.ival.String())
		}
		return "(" + strings.Join(p, "+") + ")"
	case OSel:
		i, _ := strconv.Atoi(t.name)
		fn := t.name
		if t.args[0].sort.FNames != nil {
			fn = t.args[0].sort.FNames[i]
		}
		return t.args[0].str(d+1, budget) + "." + fn
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1, budget))
	}
	n := opNames[t.op]
	if t.name != "" {
		n += ":" + t.name
	}
	if t.op == OMk {
		n = "mk:" + t.sort.Name
	}
	*budget -= len(n)
	return n + "(" + strings.Join(p, ", ") + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
