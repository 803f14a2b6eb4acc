package main

import (
	"math/big"
	"strconv"
	"strings"
)

// ---------- linear integers

type lin struct {
	c  *big.Int
	m  map[*Term]*big.Int
	ks []*Term
}

func newLin() *lin { return &lin{c: new(big.Int), m: map[*Term]*big.Int{}} }
func (l *lin) addConst(c *big.Int) {
	l.c.Add(l.c, c)
}
func (l *lin) addTerm(k *big.Int, t *Term) {
	switch t.op {
	case OInt:
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
		return
	case OAdd:
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
		for i, a := range t.args {
			l.addTerm(new(big.Int).Mul(k, t.coefs[i]), a)
		}
		return
	}
	if o, ok := l.m[t]; ok {
		o.Add(o, k)
	} else {
		l.m[t] = new(big.Int).Set(k)
		l.ks = append(l.ks, t)
	}
}
func (l *lin) norm() {
	var ks []*Term
	for _, k := range l.ks {
		if l.m[k].Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sortTerms(ks)
	l.ks = ks
}
func (l *lin) term() *Term {
	l.norm()
	if len(l.ks) == 0 {
		return mkBig(l.c)
	}
	if len(l.ks) == 1 && l.c.Sign() == 0 && l.m[l.ks[0]].Cmp(big1) == 0 {
		return l.ks[0]
	}
	cs := make([]*big.Int, len(l.ks))
	for i, k := range l.ks {
		cs[i] = l.m[k]
	}
	return intern(&Term{op: OAdd, sort: IntS, args: l.ks, coefs: cs, ival: new(big.Int).Set(l.c)})
}

var big1 = big.NewInt(1)
var bigm1 = big.NewInt(-1)

func linOf(t *Term) *lin {
	l := newLin()
	l.addTerm(big1, t)
	l.norm()
	return l
}

func mkAdd(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.addTerm(big1, t)
	}
	return l.term()
}
func mkSubI(a, b *Term) *Term {
	l := newLin()
	l.addTerm(big1, a)
	l.addTerm(bigm1, b)
	return l.term()
}
func mkNeg(a *Term) *Term { return mkSubI(mkInt(0), a) }
func mkMul(a, b *Term) *Term {
	if a.op == OInt {
		l := newLin()
		l.addTerm(a.ival, b)
		return l.term()
	}
	if b.op == OInt {
		return mkMul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw(OMul, IntS, "", a, b)
}

func nonneg(t *Term) bool {
	switch t.op {
	case OInt:
		return t.ival.Sign() >= 0
	case OLen, OFirst, OFirstU, OCode, OTag:
		return true
	case OAdd:
		if t.ival.Sign() < 0 {
			return false
		}
		for i, a := range t.args {
			if t.coefs[i].Sign() < 0 || !nonneg(a) {
				return false
			}
		}
		return true
	case OIte:
		return nonneg(t.args[1]) && nonneg(t.args[2])
	case OSum:
		return nonneg(t.args[1].args[0])
	case OVar:
		return strings.HasPrefix(t.name, "k!") // iteration counters
	case OApp:
		return t.name == "indexofn"
	}
	return false
}

func mkLe(a, b *Term) *Term { return mkLe0(mkSubI(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(mkAdd(mkSubI(a, b), mkInt(1))) }

func mkLe0(t *Term) *Term {
	if t.op == OInt {
		return mkBool(t.ival.Sign() <= 0)
	}
	if t.op == OIte {
		if t.args[1].isConst() || t.args[2].isConst() {
			return mkIte(t.args[0], mkLe0(t.args[1]), mkLe0(t.args[2]))
		}
	}
	l := linOf(t)
	// gcd normalisation
	g := new(big.Int)
	for _, k := range l.ks {
		g.GCD(nil, nil, g, new(big.Int).Abs(l.m[k]))
	}
	if g.Cmp(big1) > 0 {
		for _, k := range l.ks {
			l.m[k] = new(big.Int).Quo(l.m[k], g)
		}
		// c <= -sum  => ceil(c/g)
		q, r := new(big.Int).DivMod(l.c, g, new(big.Int))
		if r.Sign() != 0 {
			q.Add(q, big1)
		}
		l.c = q
	}
	// split in nonneg / nonpos
	allNonPos, allNonNeg := l.c.Sign() <= 0, l.c.Sign() >= 0
	for _, k := range l.ks {
		s := l.m[k].Sign()
		nn := nonneg(k)
		if !(nn && s < 0) {
			allNonPos = false
		}
		if !(nn && s > 0) {
			allNonNeg = false
		}
	}
	if allNonPos {
		return True
	}
	if allNonNeg && l.c.Sign() > 0 {
		return False
	}
	// len(s) <= 0  /  1 - len(s) <= 0
	if len(l.ks) == 1 && l.ks[0].op == OLen {
		s := l.ks[0].args[0]
		if l.m[s0(l)].Cmp(big1) == 0 && l.c.Sign() == 0 {
			return mkIsEmpty(s)
		}
		if l.m[s0(l)].Cmp(bigm1) == 0 && l.c.Cmp(big1) == 0 {
			return mkNot(mkIsEmpty(s))
		}
	}
	// First(n,B) versus n
	for _, k := range l.ks {
		if k.op != OFirst {
			continue
		}
		n := k.args[0]
		d := newLin()
		for _, q := range l.ks {
			d.addTerm(l.m[q], q)
		}
		d.addConst(l.c)
		switch {
		case l.m[k].Cmp(big1) == 0: // First + rest <= 0
			d.addTerm(bigm1, k)
			d.addTerm(big1, n) // rest + n
			d.norm()
			if len(d.ks) == 0 {
				// First - n + c <= 0
				if d.c.Sign() <= 0 {
					return True
				}
				if d.c.Cmp(big1) == 0 {
					return mkEx(n, k.args[1])
				}
			}
		case l.m[k].Cmp(bigm1) == 0: // -First + rest <= 0
			d.addTerm(big1, k)
			d.addTerm(bigm1, n) // rest - n
			d.norm()
			if len(d.ks) == 0 {
				// n + c - First <= 0
				if d.c.Sign() == 0 {
					return mkNot(mkEx(n, k.args[1]))
				}
				if d.c.Sign() > 0 {
					return False
				}
			}
		}
	}
	// ite inside with constants: leave
	return raw(OLe0, BoolS, "", l.term())
}
func s0(l *lin) *Term { return l.ks[0] }

// ---------- booleans

var notMemo = map[*Term]*Term{}

func mkNot(a *Term) *Term {
	switch a.op {
	case OAnd, OOr, OIte, OLe0:
		if r, ok := notMemo[a]; ok {
			return r
		}
		r := mkNot1(a)
		notMemo[a] = r
		return r
	}
	return mkNot1(a)
}

func mkNot1(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OAnd:
		as := make([]*Term, len(a.args))
		for i, x := range a.args {
			as[i] = mkNot(x)
		}
		return mkOr(as...)
	case OOr:
		as := make([]*Term, len(a.args))
		for i, x := range a.args {
			as[i] = mkNot(x)
		}
		return mkAnd(as...)
	case OLe0:
		// not (t<=0)  ==  1-t <= 0
		return mkLe0(mkSubI(mkInt(1), a.args[0]))
	case OIte:
		return mkIte(a.args[0], mkNot(a.args[1]), mkNot(a.args[2]))
	}
	return raw(ONot, BoolS, "", a)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t.op == OTrue {
		return nil
	}
	return []*Term{t}
}
func disj(t *Term) []*Term {
	if t.op == OOr {
		return t.args
	}
	if t.op == OFalse {
		return nil
	}
	return []*Term{t}
}

var andMemo, orMemo = map[string]*Term{}, map[string]*Term{}

func idKey(ts []*Term) string {
	b := make([]byte, 0, 8*len(ts))
	for _, t := range ts {
		b = append(strconv.AppendInt(b, int64(t.id), 36), ',')
	}
	return string(b)
}

func mkAnd(ts ...*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	k := idKey(ts)
	if r, ok := andMemo[k]; ok {
		return r
	}
	r := mkAnd1(ts...)
	andMemo[k] = r
	return r
}

func mkAnd1(ts ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if set[mkNot(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	// unit propagation into disjunctions
	for round := 0; round < 3; round++ {
		changed := false
		for i, t := range out {
			if t.op != OOr {
				continue
			}
			var rest []*Term
			sat := false
			for _, d := range t.args {
				if set[d] && d != t {
					sat = true
					break
				}
				neg := false
				if d.op == OAnd {
					ok := true
					var keep []*Term
					for _, c := range d.args {
						if set[c] {
							continue
						}
						if set[mkNot(c)] {
							ok = false
							break
						}
						keep = append(keep, c)
					}
					if !ok {
						neg = true
					} else if len(keep) == 0 {
						sat = true
						break
					} else if len(keep) < len(d.args) {
						d = mkAnd(keep...)
					}
				} else if set[mkNot(d)] {
					neg = true
				}
				if !neg {
					rest = append(rest, d)
				}
			}
			if sat {
				out[i] = True
				delete(set, t)
				changed = true
				continue
			}
			nt := mkOr(rest...)
			if nt != t {
				delete(set, t)
				out[i] = True
				if !add(nt) {
					return False
				}
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// contradictory equalities with constants
	eqc := map[*Term]*Term{}
	for _, t := range out {
		if t.op == OEq {
			x, c := t.args[0], t.args[1]
			if x.isConst() {
				x, c = c, x
			}
			if c.isConst() && !x.isConst() {
				if o, ok := eqc[x]; ok && o != c {
					return False
				}
				eqc[x] = c
			}
		}
	}
	if len(eqc) > 0 {
		var o2 []*Term
		for _, t := range out {
			if t.op == ONot && t.args[0].op == OEq {
				e := t.args[0]
				x, c := e.args[0], e.args[1]
				if x.isConst() {
					x, c = c, x
				}
				if v, ok := eqc[x]; ok && c.isConst() {
					if v == c {
						return False
					}
					continue // implied
				}
			}
			o2 = append(o2, t)
		}
		out = o2
	}
	// bounds that exclude each other
	var les []*Term
	for _, t := range out {
		if t.op == OLe0 {
			les = append(les, t)
		}
	}
	if len(les) > 1 && len(les) < 40 {
		ls := make([]*lin, len(les))
		for i, t := range les {
			ls[i] = linOf(t.args[0])
		}
		for i := range ls {
			for j := i + 1; j < len(ls); j++ {
				a, b := ls[i], ls[j]
				if len(a.ks) != len(b.ks) {
					continue
				}
				opp := true
				for _, k := range a.ks {
					y := b.m[k]
					if y == nil || new(big.Int).Add(a.m[k], y).Sign() != 0 {
						opp = false
						break
					}
				}
				if opp && new(big.Int).Add(a.c, b.c).Sign() > 0 {
					return False
				}
			}
		}
	}
	var fin []*Term
	for _, t := range out {
		if t != True {
			fin = append(fin, t)
		}
	}
	switch len(fin) {
	case 0:
		return True
	case 1:
		return fin[0]
	}
	sortTerms(fin)
	return raw(OAnd, BoolS, "", fin...)
}

func mkOr(ts ...*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	k := idKey(ts)
	if r, ok := orMemo[k]; ok {
		return r
	}
	r := mkOr1(ts...)
	orMemo[k] = r
	return r
}

func mkOr1(ts ...*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool { // false => whole is True
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if t.op != OAnd {
			if set[mkNotAtom(t)] {
				return false
			}
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	// simplify conjunctions using literals: l or (not l and a) = l or a ; l or (l and a) = l
	for round := 0; round < 4; round++ {
		changed := false
		for i := 0; i < len(out); i++ {
			t := out[i]
			if t.op != OAnd {
				continue
			}
			var keep []*Term
			absorbed := false
			for _, c := range t.args {
				if set[c] {
					absorbed = true
					break
				}
				if c.op == OOr { // (a or b) and rest, with a in set ... skip
					keep = append(keep, c)
					continue
				}
				if set[mkNotAtom(c)] {
					continue
				}
				keep = append(keep, c)
			}
			if absorbed {
				delete(set, t)
				out = append(out[:i:i], out[i+1:]...)
				i--
				changed = true
				continue
			}
			if len(keep) < len(t.args) {
				delete(set, t)
				out = append(out[:i:i], out[i+1:]...)
				i--
				changed = true
				if !add(mkAnd(keep...)) {
					return True
				}
			}
		}
		if !changed {
			// pairwise resolution: (c and a) or (c and not a) = c ; also factor common conjuncts
			for i := 0; i < len(out) && !changed; i++ {
				for j := i + 1; j < len(out) && !changed; j++ {
					if m := mergePair(out[i], out[j]); m != nil {
						a, b := out[i], out[j]
						delete(set, a)
						delete(set, b)
						out = append(out[:j:j], out[j+1:]...)
						out = append(out[:i:i], out[i+1:]...)
						if !add(m) {
							return True
						}
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	sortTerms(out)
	return raw(OOr, BoolS, "", out...)
}

// mkNotAtom negates a literal without risk of deep recursion through mkOr.
func mkNotAtom(t *Term) *Term {
	switch t.op {
	case OAnd, OOr:
		// constructed negations of compound terms are never single literals
		return raw(ONot, BoolS, "", t)
	}
	return mkNot(t)
}

// (c ∧ a) ∨ (c ∧ ¬a) -> c ; (c∧a) ∨ (c∧¬a∧b) -> c∧a ∨ c∧b is left alone
func mergePair(x, y *Term) *Term {
	cx, cy := conj(x), conj(y)
	if len(cx) > 12 || len(cy) > 12 {
		if len(cx) != len(cy) {
			return nil
		}
	}
	sy := map[*Term]bool{}
	for _, c := range cy {
		sy[c] = true
	}
	var common, rx []*Term
	for _, c := range cx {
		if sy[c] {
			common = append(common, c)
			delete(sy, c)
		} else {
			rx = append(rx, c)
		}
	}
	if len(rx) == 1 && len(sy) == 1 {
		for c := range sy {
			if mkNotAtom(c) == rx[0] || mkNotAtom(rx[0]) == c || mkNot(c) == rx[0] {
				return mkAnd(common...)
			}
		}
	}
	if len(rx) == 1 {
		// y = common ∧ ry..., with ry containing ¬rx : (rx ∨ (¬rx ∧ b)) = rx ∨ b
		for c := range sy {
			if mkNot(c) == rx[0] && len(sy) > 1 {
				var ry []*Term
				for _, d := range cy {
					if sy[d] && d != c {
						ry = append(ry, d)
					}
				}
				return mkAnd(append(append([]*Term{}, common...), mkOr(rx[0], mkAnd(ry...)))...)
			}
		}
	}
	if len(sy) == 1 && len(rx) > 1 {
		for c := range sy {
			for _, d := range rx {
				if mkNot(d) == c {
					var rr []*Term
					for _, e := range rx {
						if e != d {
							rr = append(rr, e)
						}
					}
					return mkAnd(append(append([]*Term{}, common...), mkOr(c, mkAnd(rr...)))...)
				}
			}
		}
	}
	return nil
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

// ---------- assumption based simplification

func literals(c *Term, m map[*Term]*Term) {
	set := func(t, v *Term) {
		if t.isConst() {
			return
		}
		m[t] = v
	}
	switch c.op {
	case OAnd:
		for _, a := range c.args {
			literals(a, m)
		}
		return
	case ONot:
		set(c.args[0], False)
		if e := c.args[0]; e.op == OEx {
			set(raw(OFirst, IntS, "", e.args[0], e.args[1]), e.args[0])
		}
		return
	case OLe0:
		set(c, True)
		set(mkNot(c), False)
		return
	case OOr:
		set(c, True)
		return
	case OEq:
		set(c, True)
		x, y := c.args[0], c.args[1]
		if x.isConst() && !y.isConst() {
			x, y = y, x
		}
		if y.isConst() && !x.isConst() && (y.op != OEmpty || true) {
			set(x, y)
		}
		return
	case OTrue, OFalse:
		return
	}
	set(c, True)
}

type auKey struct{ c, t *Term }

var auMemo = map[auKey]*Term{}

// under simplifies t given that c holds.
var underMemo = map[[2]*Term]*Term{}

func under(c, t *Term) *Term {
	if t.isConst() || c == True {
		return t
	}
	k := [2]*Term{c, t}
	if r, ok := underMemo[k]; ok {
		return r
	}
	r := under1(c, t)
	underMemo[k] = r
	return r
}

func under1(c, t *Term) *Term {
	if c == True || t.isConst() || t.op == OVar && t.sort != BoolS {
		if t.op == OVar {
			m := map[*Term]*Term{}
			literals(c, m)
			if r, ok := m[t]; ok {
				return r
			}
		}
		return t
	}
	k := auKey{c, t}
	if r, ok := auMemo[k]; ok {
		return r
	}
	m := map[*Term]*Term{}
	literals(c, m)
	r := substGuard(t, m)
	auMemo[k] = r
	return r
}

func substGuard(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if r, ok := m[t]; ok && (d == 0 || t.loose == 0) {
			return shift(r, d, 0)
		}
		if len(t.args) == 0 {
			return t
		}
		k := [2]int{t.id, d}
		if r, ok := memo[k]; ok {
			return r
		}
		dd := d
		if t.op == OLam {
			dd += len(t.bs)
		}
		var r *Term
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a, dd)
			if args[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			r = rebuild(t, args)
		}
		// disjunction literal facts: (a∨b)=true handled by exact match only
		memo[k] = r
		return r
	}
	return rec(t, 0)
}

// ---------- ite

var iteMemo = map[[3]*Term]*Term{}

func mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	k := [3]*Term{c, a, b}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	r := mkIte1(c, a, b)
	iteMemo[k] = r
	return r
}

func mkIte1(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch c.op {
	case OTrue:
		return a
	case OFalse:
		return b
	case ONot:
		return mkIte(c.args[0], b, a)
	case OOr:
		return mkIte(mkNot(c), b, a)
	case OLe0:
		if c.args[0].op == OAdd && c.args[0].coefs[0].Sign() < 0 {
			return mkIte(mkNot(c), b, a)
		}
	case OIte:
		// ite(ite(p,q,r),a,b)
		if c.args[1].isConst() || c.args[2].isConst() {
			return mkIte(c.args[0], mkIte(c.args[1], a, b), mkIte(c.args[2], a, b))
		}
	}
	nc := mkNot(c)
	a = under(c, a)
	b = under(nc, b)
	if a == b {
		return a
	}
	if a.sort == BoolS {
		switch {
		case a == True:
			return mkOr(c, b)
		case a == False:
			return mkAnd(nc, b)
		case b == True:
			return mkOr(nc, a)
		case b == False:
			return mkAnd(c, a)
		}
		if c.op != OIte && a.op != OIte && a.op != OAnd && a.op != OOr && c.op != OAnd && mkNot(a) == b {
			// c ⇔ a, kept with the smaller atom as the condition
			neg := false
			pa := a
			if a.op == ONot {
				pa, neg = a.args[0], true
			} else if a.op == OLe0 && a.args[0].op == OAdd && a.args[0].coefs[0].Sign() < 0 {
				pa, neg = b, true
			}
			x, y := c, pa
			if y.id < x.id {
				x, y = y, x
			}
			if neg {
				return raw(OIte, BoolS, "", x, mkNot(y), y)
			}
			return raw(OIte, BoolS, "", x, y, mkNot(y))
		}
		return raw(OIte, BoolS, "", c, a, b)
	}
	// structural push
	if a.op == OMk && b.op == OMk {
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkMk(a.sort, as...)
	}
	if a.sort.K == SSlice && (a.op == OMkSl || b.op == OMkSl) {
		return mkSl(mkIte(c, mkSlNil(a), mkSlNil(b)), mkIte(c, mkSlSeq(a), mkSlSeq(b)))
	}
	if a.sort.K == SStruct && (a.op == OMk || b.op == OMk) {
		n := len(a.sort.Fields)
		as := make([]*Term, n)
		for i := range as {
			as[i] = mkIte(c, mkSel(a, i), mkSel(b, i))
		}
		return mkMk(a.sort, as...)
	}
	if a.op == OMkIf && b.op == OMkIf && a.name == b.name {
		return mkMkIf(a.name, mkIte(c, a.args[0], b.args[0]))
	}
	if a.op == OUnit && b.op == OUnit {
		return mkUnit(mkIte(c, a.args[0], b.args[0]))
	}
	// concat factoring
	if a.sort.K == SStr || a.sort.K == SSeq {
		pa, pb := pieces(a), pieces(b)
		var pre []*Term
		for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
			pre = append(pre, pa[0])
			pa, pb = pa[1:], pb[1:]
		}
		if len(pa) > 0 && len(pb) > 0 && pa[0].op == OStrC && pb[0].op == OStrC {
			x, y := pa[0].name, pb[0].name
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			if i > 0 {
				pre = append(pre, mkStr(x[:i]))
				pa = append([]*Term{mkStr(x[i:])}, pa[1:]...)
				pb = append([]*Term{mkStr(y[i:])}, pb[1:]...)
				if pa[0].name == "" {
					pa = pa[1:]
				}
				if pb[0].name == "" {
					pb = pb[1:]
				}
			}
		}
		var post []*Term
		for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
			post = append([]*Term{pa[len(pa)-1]}, post...)
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		}
		if len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].op == OStrC && pb[len(pb)-1].op == OStrC {
			x, y := pa[len(pa)-1].name, pb[len(pb)-1].name
			i := 0
			for i < len(x) && i < len(y) && x[len(x)-1-i] == y[len(y)-1-i] {
				i++
			}
			if i > 0 {
				post = append([]*Term{mkStr(x[len(x)-i:])}, post...)
				pa = append(append([]*Term{}, pa[:len(pa)-1]...), mkStr(x[:len(x)-i]))
				pb = append(append([]*Term{}, pb[:len(pb)-1]...), mkStr(y[:len(y)-i]))
			}
		}
		if len(pre) > 0 || len(post) > 0 {
			s := a.sort
			mid := mkIte(c, mkConcat(s, pa...), mkConcat(s, pb...))
			all := append(append(append([]*Term{}, pre...), mid), post...)
			return mkConcat(s, all...)
		}
	}
	// nested sharing
	if b.op == OIte && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return mkIte(mkOr(c, mkNot(b.args[0])), a, b.args[1])
	}
	if a.op == OIte && a.args[2] == b {
		return mkIte(mkAnd(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return mkIte(mkAnd(c, mkNot(a.args[0])), a.args[2], b)
	}
	return raw(OIte, a.sort, "", c, a, b)
}

// ---------- equality

func mkIsEmpty(s *Term) *Term {
	if s.sort == StrS {
		return mkEq(s, mkStr(""))
	}
	return mkEq(s, mkEmpty(s.sort))
}

func isGlobalVar(t *Term) bool {
	return t.op == OVar && t.sort == IntS && strings.HasPrefix(t.name, "G:")
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic("mkEq: sorts " + a.sort.key + " / " + b.sort.key + ": " + a.String() + " = " + b.String())
	}
	if a.isConst() && b.isConst() {
		return False // distinct constants of the same sort
	}
	if ga, gb := isGlobalVar(a), isGlobalVar(b); ga && (gb || b.op == OInt) || gb && a.op == OInt {
		return False // different package variables; none is nil or an object of a known allocation
	}
	// ite against constant
	if b.op == OIte && a.op != OIte {
		a, b = b, a
	}
	if a.op == OIte && (b.isConst() || isRefConst(b)) {
		if a.args[1].isConst() || a.args[2].isConst() || isIteConst(a) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
	}
	switch a.sort.K {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return mkNot(b)
		}
		if b == False {
			return mkNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if mkNot(a) == b {
			return False
		}
		return mkIte(a, b, mkNot(b))
	case SInt:
		if distinctRefs(a, b) {
			return False
		}
		if a.op == OFresh && b.op == OFresh && a.name == b.name {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
		l := newLin()
		l.addTerm(big1, a)
		l.addTerm(bigm1, b)
		l.norm()
		if len(l.ks) == 0 {
			return mkBool(l.c.Sign() == 0)
		}
		if len(l.ks) == 1 {
			k := l.ks[0]
			c := l.m[k]
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.c), c, new(big.Int))
			if r.Sign() != 0 {
				return False
			}
			if k.op == OLen {
				if q.Sign() == 0 {
					return mkIsEmpty(k.args[0])
				}
				if q.Sign() < 0 {
					return False
				}
			}
			if nonneg(k) && q.Sign() < 0 {
				return False
			}
			if q.Sign() == 0 && k.op == OVar && nonneg(k) {
				return mkLe0(k)
			}
			if k.op == OIte && (k.args[1].isConst() || k.args[2].isConst()) {
				return mkIte(k.args[0], mkEq(k.args[1], mkBig(q)), mkEq(k.args[2], mkBig(q)))
			}
			if k.op == OApp && k.name == "indexof" && q.Cmp(bigm1) == 0 {
				return mkNot(mkApp("contains", BoolS, k.args[0], k.args[1]))
			}
			return raw(OEq, BoolS, "", k, mkBig(q))
		}
		if len(l.ks) == 2 && l.c.Sign() == 0 && l.m[l.ks[0]].Cmp(new(big.Int).Neg(l.m[l.ks[1]])) == 0 && l.m[l.ks[0]].CmpAbs(big1) == 0 {
			x, y := l.ks[0], l.ks[1]
			if x.op == OFirst && x.args[0] == y {
				return mkNot(mkEx(y, x.args[1]))
			}
			if y.op == OFirst && y.args[0] == x {
				return mkNot(mkEx(x, y.args[1]))
			}
			if distinctRefs(x, y) {
				return False
			}
			return raw(OEq, BoolS, "", x, y)
		}
		// First vs n when n is compound
		for _, k := range l.ks {
			if k.op == OFirst {
				d := newLin()
				for _, q := range l.ks {
					d.addTerm(l.m[q], q)
				}
				d.addConst(l.c)
				co := new(big.Int).Neg(l.m[k])
				d.addTerm(co, k)
				d.addTerm(new(big.Int).Neg(co), k.args[0])
				d.norm()
				if len(d.ks) == 0 && d.c.Sign() == 0 {
					return mkNot(mkEx(k.args[0], k.args[1]))
				}
			}
		}
		if l.m[l.ks[0]].Sign() < 0 {
			for _, k := range l.ks {
				l.m[k] = new(big.Int).Neg(l.m[k])
			}
			l.c = new(big.Int).Neg(l.c)
		}
		return raw(OEq, BoolS, "", l.term(), mkInt(0))
	case SStruct:
		if a.op == OMk || b.op == OMk {
			var cs []*Term
			for i := range a.sort.Fields {
				cs = append(cs, mkEq(mkSel(a, i), mkSel(b, i)))
			}
			return mkAnd(cs...)
		}
	case SSlice:
		if a.op == OMkSl || b.op == OMkSl {
			return mkAnd(mkEq(mkSlNil(a), mkSlNil(b)), mkEq(mkSlSeq(a), mkSlSeq(b)))
		}
	case SIface:
		if a == IfNil || b == IfNil {
			if a == IfNil {
				a = b
			}
			return mkEq(mkTag(a), mkInt(0))
		}
		if a.op == OMkIf && b.op == OMkIf {
			if a.name != b.name {
				return False
			}
			return mkEq(a.args[0], b.args[0])
		}
	case SStr, SSeq:
		return eqSeq(a, b)
	case STup:
		if a.op == OTup && b.op == OTup && len(a.args) == len(b.args) {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw(OEq, BoolS, "", a, b)
}

func isRefConst(t *Term) bool { return t.op == OFresh }
func isIteConst(t *Term) bool {
	return t.op == OIte && (t.args[1].op == OFresh || t.args[2].op == OFresh || t.args[1].op == OIte && isIteConst(t.args[1]) || t.args[2].op == OIte && isIteConst(t.args[2]))
}

// distinctRefs: syntactic disequality of references.
func distinctRefs(a, b *Term) bool {
	neg := func(t *Term) bool { return t.op == OInt && t.ival.Sign() < 0 }
	fr := func(t *Term) bool { return t.op == OFresh }
	if (neg(a) || fr(a)) && (neg(b) || fr(b)) {
		if fr(a) && fr(b) {
			return a.name != b.name
		}
		return a.op != b.op || a != b
	}
	if fr(a) && b.op == OInt || fr(b) && a.op == OInt {
		return true
	}
	if (neg(a) || fr(a)) && inputRef(b) {
		return true
	}
	if (neg(b) || fr(b)) && inputRef(a) {
		return true
	}
	return false
}

// inputRef: a path expression rooted at inputs / the initial heap: never a reference allocated by the code under proof.
func inputRef(t *Term) bool {
	switch t.op {
	case OVar:
		return !strings.HasPrefix(t.name, "~") && !strings.HasPrefix(t.name, "k!")
	case OSel, OSlSeq, OIfVal:
		return inputRef(t.args[0])
	case ONth, OSub:
		return inputRef(t.args[0])
	case OSelect:
		return inputRef(t.args[0])
	case OApp:
		return strings.HasPrefix(t.name, "ext:")
	}
	return false
}

func pieces(t *Term) []*Term {
	switch t.op {
	case OConcat:
		return t.args
	case OEmpty:
		return nil
	case OStrC:
		if t.name == "" {
			return nil
		}
	}
	return []*Term{t}
}

func eqSeq(a, b *Term) *Term {
	s := a.sort
	pa := append([]*Term{}, pieces(a)...)
	pb := append([]*Term{}, pieces(b)...)
	var extra []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == OUnit && y.op == OUnit {
			extra = append(extra, mkEq(x.args[0], y.args[0]))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == OStrC && y.op == OStrC {
			i := 0
			for i < len(x.name) && i < len(y.name) && x.name[i] == y.name[i] {
				i++
			}
			if i < len(x.name) && i < len(y.name) {
				return False
			}
			changed = true
			pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
			if i == len(x.name) {
				pa = pa[1:]
			} else {
				pa[0] = mkStr(x.name[i:])
			}
			if i == len(y.name) {
				pb = pb[1:]
			} else {
				pb[0] = mkStr(y.name[i:])
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == OUnit && y.op == OUnit {
			extra = append(extra, mkEq(x.args[0], y.args[0]))
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == OStrC && y.op == OStrC {
			i := 0
			for i < len(x.name) && i < len(y.name) && x.name[len(x.name)-1-i] == y.name[len(y.name)-1-i] {
				i++
			}
			if i < len(x.name) && i < len(y.name) {
				return False
			}
			changed = true
			pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
			if i == len(x.name) {
				pa = pa[:len(pa)-1]
			} else {
				pa[len(pa)-1] = mkStr(x.name[:len(x.name)-i])
			}
			if i == len(y.name) {
				pb = pb[:len(pb)-1]
			} else {
				pb[len(pb)-1] = mkStr(y.name[:len(y.name)-i])
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return mkAnd(extra...)
	}
	if len(pa) == 0 || len(pb) == 0 {
		if len(pa) == 0 {
			pa = pb
		}
		for _, p := range pa {
			extra = append(extra, isEmptyPiece(p))
		}
		return mkAnd(extra...)
	}
	x, y := mkConcat(s, pa...), mkConcat(s, pb...)
	if changed {
		return mkAnd(append(extra, mkEq(x, y))...)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return raw(OEq, BoolS, "", x, y)
}

func isEmptyPiece(p *Term) *Term {
	switch p.op {
	case OUnit:
		return False
	case OStrC:
		return mkBool(p.name == "")
	case OIte:
		return mkIte(p.args[0], isEmptyAll(p.args[1]), isEmptyAll(p.args[2]))
	case OFlatMap:
		b := isEmptyAll(p.args[1].args[0])
		return mkNot(mkEx(p.args[0], mkLamRaw(p.args[1].bs, mkNot(b))))
	case OFromCode:
		return False
	case OUpd:
		return isEmptyAll(p.args[0])
	}
	var e *Term
	if p.sort == StrS {
		e = mkStr("")
	} else {
		e = mkEmpty(p.sort)
	}
	if p.id > e.id {
		p, e = e, p
	}
	return raw(OEq, BoolS, "", p, e)
}
func isEmptyAll(t *Term) *Term {
	var cs []*Term
	for _, p := range pieces(t) {
		cs = append(cs, isEmptyPiece(p))
	}
	return mkAnd(cs...)
}

// ---------- sequences and strings

func mkEmpty(s *Sort) *Term {
	if s == StrS {
		return mkStr("")
	}
	return raw(OEmpty, s, "")
}
func mkUnit(x *Term) *Term { return raw(OUnit, SeqOf(x.sort), "", x) }

// stdoutText: a piece of a history that is output only.
func stdoutText(t *Term) (*Term, bool) {
	switch t.op {
	case OUnit:
		if t.args[0].op == OMkIf && t.args[0].name == "ev:stdout" {
			return t.args[0].args[0], true
		}
	case OIte:
		a, ok := stdoutText(t.args[1])
		if !ok && t.args[1].op == OEmpty {
			a, ok = mkStr(""), true
		}
		b, ok2 := stdoutText(t.args[2])
		if !ok2 && t.args[2].op == OEmpty {
			b, ok2 = mkStr(""), true
		}
		if ok && ok2 {
			return mkIte(t.args[0], a, b), true
		}
	}
	return nil, false
}

func mkConcat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.sort != s {
			panic("mkConcat sort " + t.sort.key + " vs " + s.key)
		}
		for _, p := range pieces(t) {
			if p.op == OStrC && len(out) > 0 && out[len(out)-1].op == OStrC {
				out[len(out)-1] = mkStr(out[len(out)-1].name + p.name)
				continue
			}
			if len(out) > 0 && s.K == SSeq && s.Elem == IfaceS {
				// consecutive output is one output
				if b, ok := stdoutText(p); ok {
					if a, ok := stdoutText(out[len(out)-1]); ok {
						out[len(out)-1] = mkUnit(mkMkIf("ev:stdout", mkConcat(StrS, a, b)))
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return mkEmpty(s)
	case 1:
		return out[0]
	}
	return raw(OConcat, s, "", out...)
}

func mkLen(t *Term) *Term {
	switch t.op {
	case OStrC:
		return mkInt(int64(len(t.name)))
	case OEmpty:
		return mkInt(0)
	case OUnit:
		return mkInt(1)
	case OConcat:
		l := newLin()
		for _, a := range t.args {
			l.addTerm(big1, mkLen(a))
		}
		return l.term()
	case OIte:
		return mkIte(t.args[0], mkLen(t.args[1]), mkLen(t.args[2]))
	case OSub:
		return t.args[2]
	case OUpd:
		return mkLen(t.args[0])
	case OFromCode:
		return mkInt(1)
	case OFlatMap:
		bl := mkLen(t.args[1].args[0])
		if bl.op == OInt && nonneg(t.args[0]) {
			return mkMul(bl, t.args[0])
		}
	case OApp:
		if t.name == "sortby" {
			return mkLen(t.args[0])
		}
		if (t.name == "lowerlen") && len(t.args) == 1 {
			return mkLen(t.args[0])
		}
	}
	return raw(OLen, IntS, "", t)
}

func mkNth(s, i *Term) *Term {
	es := s.sort.Elem
	switch s.op {
	case OUnit:
		// in range there is only one element (elements out of range are never asked for)
		return s.args[0]
	case OConcat:
		idx := i
		rest := s.args
		for len(rest) > 0 {
			p := rest[0]
			if idx.op == OInt {
				if p.op == OUnit {
					if idx.ival.Sign() == 0 {
						return p.args[0]
					}
				}
				pl := mkLen(p)
				if pl.op == OInt {
					if idx.ival.Cmp(pl.ival) < 0 {
						return mkNth(p, idx)
					}
					idx = mkSubI(idx, pl)
					rest = rest[1:]
					continue
				}
				break
			}
			pl := mkLen(p)
			d := mkSubI(idx, pl)
			if d.op == OInt && d.ival.Sign() >= 0 || (pl.op != OInt && nonneg(d)) {
				idx = d
				rest = rest[1:]
				continue
			}
			break
		}
		if len(rest) < len(s.args) && len(rest) > 0 {
			return mkNth(mkConcat(s.sort, rest...), idx)
		}
	case OIte:
		return mkIte(s.args[0], mkNth(s.args[1], i), mkNth(s.args[2], i))
	case OFlatMap:
		if b := s.args[1].args[0]; b.op == OUnit {
			return inst(mkLamRaw(s.args[1].bs, b.args[0]), i)
		}
	case OSub:
		return mkNth(s.args[0], mkAdd(s.args[1], i))
	case OUpd:
		d := mkSubI(s.args[1], i)
		if d.op == OInt {
			if d.ival.Sign() == 0 {
				return s.args[2]
			}
			return mkNth(s.args[0], i)
		}
		return mkIte(mkEq(s.args[1], i), s.args[2], mkNth(s.args[0], i))
	}
	return raw(ONth, es, "", s, i)
}

func mkUpd(s, i, v *Term) *Term {
	if s.op == OUpd && s.args[1] == i {
		s = s.args[0]
	}
	// concrete
	if i.op == OInt && i.ival.IsInt64() {
		n := int(i.ival.Int64())
		ps := pieces(s)
		all := true
		for _, p := range ps {
			if p.op != OUnit {
				all = false
			}
		}
		if all && n >= 0 && n < len(ps) {
			np := append([]*Term{}, ps...)
			np[n] = mkUnit(v)
			return mkConcat(s.sort, np...)
		}
	}
	if s.op == OFlatMap && s.args[1].args[0].op == OUnit && s.args[0].op == OInt {
		// handled by unrolling at construction
	}
	return raw(OUpd, s.sort, "", s, i, v)
}

func mkSub(s, off, n *Term) *Term {
	if n.op == OInt && n.ival.Sign() == 0 {
		return mkEmpty(s.sort)
	}
	if off.op == OInt && off.ival.Sign() == 0 && n == mkLen(s) {
		return s
	}
	if s.op == OStrC && off.op == OInt && n.op == OInt && off.ival.IsInt64() && n.ival.IsInt64() {
		o, l := off.ival.Int64(), n.ival.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.name)) {
			return mkStr(s.name[o : o+l])
		}
	}
	if s.op == OSub {
		return mkSub(s.args[0], mkAdd(s.args[1], off), n)
	}
	if s.op == OConcat {
		// drop whole leading pieces
		rest := s.args
		o := off
		for len(rest) > 0 {
			pl := mkLen(rest[0])
			d := mkSubI(o, pl)
			if d.op == OInt && d.ival.Sign() >= 0 || pl.op != OInt && nonneg(d) {
				o = d
				rest = rest[1:]
				continue
			}
			break
		}
		if len(rest) < len(s.args) {
			return mkSub(mkConcat(s.sort, rest...), o, n)
		}
		// whole leading pieces kept
		if off.op == OInt && off.ival.Sign() == 0 {
			var pre []*Term
			m := n
			for len(rest) > 0 {
				d := mkSubI(m, mkLen(rest[0]))
				if d.op == OInt && d.ival.Sign() >= 0 {
					pre = append(pre, rest[0])
					m = d
					rest = rest[1:]
					if m.op == OInt && m.ival.Sign() == 0 {
						return mkConcat(s.sort, pre...)
					}
					continue
				}
				break
			}
			if len(pre) > 0 {
				return mkConcat(s.sort, append(pre, mkSub(mkConcat(s.sort, rest...), mkInt(0), m))...)
			}
		}
		// offset inside a leading constant
		if s.args[0].op == OStrC && off.op == OInt && off.ival.Sign() > 0 && off.ival.IsInt64() && off.ival.Int64() < int64(len(s.args[0].name)) {
			k := off.ival.Int64()
			return mkSub(mkConcat(s.sort, append([]*Term{mkStr(s.args[0].name[k:])}, s.args[1:]...)...), mkInt(0), n)
		}
		// trailing constant cut
		last := s.args[len(s.args)-1]
		if last.op == OStrC && off.op == OInt && off.ival.Sign() == 0 {
			d := mkSubI(mkLen(s), n)
			if d.op == OInt && d.ival.Sign() > 0 && d.ival.IsInt64() && d.ival.Int64() <= int64(len(last.name)) {
				nl := mkStr(last.name[:int64(len(last.name))-d.ival.Int64()])
				return mkConcat(s.sort, append(append([]*Term{}, s.args[:len(s.args)-1]...), nl)...)
			}
		}
	}
	if s.op == OFlatMap && s.args[1].args[0].op == OUnit {
		b := s.args[1]
		return mkFlatMap(n, mkLamRaw(b.bs, inst(shiftLam(b), mkAdd(mkBV(0, IntS), shift(off, 1, 0)))))
	}
	if s.op == OIte {
		return mkIte(s.args[0], mkSub(s.args[1], off, n), mkSub(s.args[2], off, n))
	}
	return raw(OSub, s.sort, "", s, off, n)
}

// shiftLam shifts the free BVs of a closed-over lambda by one so that it may be instantiated under one more binder.
func shiftLam(l *Term) *Term { return shift(l, 1, 0) }

func mkCode(s, i *Term) *Term {
	if s.op == OStrC && i.op == OInt && i.ival.IsInt64() {
		n := i.ival.Int64()
		if n >= 0 && n < int64(len(s.name)) {
			return mkInt(int64(s.name[n]))
		}
	}
	switch s.op {
	case OSub:
		return mkCode(s.args[0], mkAdd(s.args[1], i))
	case OFromCode:
		if i.op == OInt && i.ival.Sign() == 0 {
			return s.args[0]
		}
	case OIte:
		return mkIte(s.args[0], mkCode(s.args[1], i), mkCode(s.args[2], i))
	case OConcat:
		p := s.args[0]
		pl := mkLen(p)
		if i.op == OInt && pl.op == OInt {
			if i.ival.Cmp(pl.ival) < 0 {
				return mkCode(p, i)
			}
			return mkCode(mkConcat(StrS, s.args[1:]...), mkSubI(i, pl))
		}
		d := mkSubI(i, pl)
		if d.op == OInt && d.ival.Sign() >= 0 || pl.op != OInt && nonneg(d) {
			return mkCode(mkConcat(StrS, s.args[1:]...), d)
		}
	}
	return raw(OCode, IntS, "", s, i)
}
func mkFromCode(c *Term) *Term {
	if c.op == OInt && c.ival.IsInt64() && c.ival.Int64() >= 0 && c.ival.Int64() < 256 {
		return mkStr(string([]byte{byte(c.ival.Int64())}))
	}
	if c.op == OIte {
		return mkIte(c.args[0], mkFromCode(c.args[1]), mkFromCode(c.args[2]))
	}
	return raw(OFromCode, StrS, "", c)
}

// ---------- structs, slices, interfaces, heaps

func mkMk(s *Sort, args ...*Term) *Term {
	// eta: Mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && len(args) == len(s.Fields) && args[0].op == OSel && args[0].args[0].sort == s {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if !(a.op == OSel && a.args[0] == x && a.name == strconv.Itoa(i)) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return raw(OMk, s, s.Name, args...)
}
func mkSel(x *Term, i int) *Term {
	switch x.op {
	case OMk:
		return x.args[i]
	case OIte:
		return mkIte(x.args[0], mkSel(x.args[1], i), mkSel(x.args[2], i))
	}
	return raw(OSel, x.sort.Fields[i], strconv.Itoa(i), x)
}
func mkSl(n, s *Term) *Term {
	if n.op == OSlNil && s.op == OSlSeq && n.args[0] == s.args[0] {
		return n.args[0]
	}
	return raw(OMkSl, SliceOf(s.sort), "", n, s)
}
func mkSlNil(x *Term) *Term {
	switch x.op {
	case OMkSl:
		return x.args[0]
	case OIte:
		return mkIte(x.args[0], mkSlNil(x.args[1]), mkSlNil(x.args[2]))
	}
	return raw(OSlNil, BoolS, "", x)
}
func mkSlSeq(x *Term) *Term {
	switch x.op {
	case OMkSl:
		return x.args[1]
	case OIte:
		return mkIte(x.args[0], mkSlSeq(x.args[1]), mkSlSeq(x.args[2]))
	}
	return raw(OSlSeq, x.sort.Elem, "", x)
}

var typeIDs = map[string]int64{}
var typeNames = []string{"nil"}

func typeID(n string) int64 {
	if i, ok := typeIDs[n]; ok {
		return i
	}
	i := int64(len(typeNames))
	typeIDs[n] = i
	typeNames = append(typeNames, n)
	return i
}
func mkMkIf(typ string, v *Term) *Term {
	typeID(typ)
	if v.op == OIfVal && v.name == typ {
		// only valid when tag matches; keep as is
	}
	return raw(OMkIf, IfaceS, typ, v)
}
func mkTag(x *Term) *Term {
	switch x.op {
	case OMkIf:
		return mkInt(typeID(x.name))
	case OIfNil:
		return mkInt(0)
	case OIte:
		return mkIte(x.args[0], mkTag(x.args[1]), mkTag(x.args[2]))
	}
	return raw(OTag, IntS, "", x)
}
func mkIfVal(typ string, s *Sort, x *Term) *Term {
	switch x.op {
	case OMkIf:
		if x.name == typ {
			return x.args[0]
		}
	case OIte:
		a, b := x.args[1], x.args[2]
		// a branch that cannot have this type does not matter
		if (a.op == OMkIf && a.name != typ) || a.op == OIfNil {
			return mkIfVal(typ, s, b)
		}
		if (b.op == OMkIf && b.name != typ) || b.op == OIfNil {
			return mkIfVal(typ, s, a)
		}
		return mkIte(x.args[0], mkIfVal(typ, s, a), mkIfVal(typ, s, b))
	}
	return raw(OIfVal, s, typ, x)
}

func mkSelect(h, r *Term) *Term {
	if r.op == OIte {
		return mkIte(r.args[0], mkSelect(h, r.args[1]), mkSelect(h, r.args[2]))
	}
	switch h.op {
	case OStore:
		if h.args[1] == r {
			return h.args[2]
		}
		if distinctRefs(h.args[1], r) {
			return mkSelect(h.args[0], r)
		}
		e := mkEq(h.args[1], r)
		if e == False {
			return mkSelect(h.args[0], r)
		}
		return mkIte(e, h.args[2], mkSelect(h.args[0], r))
	case OIte:
		return mkIte(h.args[0], mkSelect(h.args[1], r), mkSelect(h.args[2], r))
	case OHFill:
		// h0, n, lamRef, lamVal
		lr := h.args[2].args[0]
		if lr.op == OFresh {
			if len(h.args) == 5 && r.op == OFresh && r.name == lr.name {
				if len(r.args) == 2 && lr.args[0] == mkBV(1, IntS) && lr.args[1] == mkBV(0, IntS) {
					i, j := r.args[0], r.args[1]
					in := mkAnd(mkLe(mkInt(0), i), mkLt(i, h.args[1]), mkLe(mkInt(0), j), mkLt(j, inst(h.args[4], i)))
					return mkIte(in, inst(h.args[3], i, j), mkSelect(h.args[0], r))
				}
			} else if r.op == OFresh && r.name == lr.name && len(r.args) == len(lr.args) {
				// find the argument position bound by the lambda (always the last one)
				last := len(lr.args) - 1
				ok := lr.args[last] == mkBV(0, IntS)
				for i := 0; i < last; i++ {
					if shift(r.args[i], 1, 0) != lr.args[i] {
						ok = false
					}
				}
				if ok {
					j := r.args[last]
					return mkIte(mkAnd(mkLe(mkInt(0), j), mkLt(j, h.args[1])), inst(h.args[3], j), mkSelect(h.args[0], r))
				}
			} else if distinctRefs(lr, r) || inputRef(r) || r.op == OInt || r.op == OFresh && r.name != lr.name {
				return mkSelect(h.args[0], r)
			}
		}
	}
	return raw(OSelect, h.sort.Elem, "", h, r)
}
func mkStore(h, r, v *Term) *Term {
	if h.op == OStore && h.args[1] == r {
		return mkStore(h.args[0], r, v)
	}
	if v.op == OSelect && v.args[0] == h && v.args[1] == r {
		return h
	}
	if v == mkSelect(h, r) {
		return h
	}
	return raw(OStore, h.sort, "", h, r, v)
}
func mkHFill(h, n, lr, lv *Term, n2 ...*Term) *Term {
	if n.op == OInt && n.ival.Sign() <= 0 {
		return h
	}
	if len(n2) > 0 {
		return raw(OHFill, h.sort, "", h, n, lr, lv, n2[0])
	}
	return raw(OHFill, h.sort, "", h, n, lr, lv)
}

// ---------- binders

const unrollMax = 8

// seqDep: if the lambda body depends on its (single) variable only through nth(S,#0) / code(S,#0) with n == len(S),
// return S (closed) and the predicate as a lambda over the element.
func seqDep(n, lam *Term) (S *Term, elem *Term) {
	body := lam.args[0]
	bv := mkBV(0, IntS)
	var target *Term
	ok := true
	seen := map[[2]int]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if !ok || t.loose <= d {
			return
		}
		k := [2]int{t.id, d}
		if seen[k] {
			return
		}
		seen[k] = true
		if t.op == ONth && t.args[1].op == OBV && t.args[1] == shiftBV(bv, d) && t.args[0].op != OBV {
			// sequence must not depend on binders 0..d
			if minLoose(t.args[0]) <= d {
				ok = false
				return
			}
			S0 := shift(t.args[0], -(d + 1), 0)
			if target == nil {
				target = S0
			} else if target != S0 {
				ok = false
			}
			return
		}
		if t.op == OBV {
			i, _ := strconv.Atoi(t.name)
			if i == d {
				ok = false
			}
			return
		}
		dd := d
		if t.op == OLam {
			dd += len(t.bs)
		}
		for _, a := range t.args {
			rec(a, dd)
		}
	}
	rec(body, 0)
	if !ok || target == nil || mkLen(target) != n {
		return nil, nil
	}
	// element lambda: replace nth(S,#d) by BV of elem sort at same index
	memo := map[[2]int]*Term{}
	var rep func(t *Term, d int) *Term
	rep = func(t *Term, d int) *Term {
		if t.loose <= d {
			return t
		}
		k := [2]int{t.id, d}
		if r, o := memo[k]; o {
			return r
		}
		var r *Term
		if t.op == ONth && t.args[1].op == OBV && t.args[1] == shiftBV(bv, d) {
			r = mkBV(d, t.sort)
		} else if len(t.args) == 0 {
			r = t
		} else {
			dd := d
			if t.op == OLam {
				dd += len(t.bs)
			}
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rep(a, dd)
			}
			r = rebuild(t, as)
		}
		memo[k] = r
		return r
	}
	nb := rep(body, 0)
	return target, mkLamRaw([]*Sort{target.sort.Elem}, nb)
}
func shiftBV(t *Term, d int) *Term {
	i, _ := strconv.Atoi(t.name)
	return mkBV(i+d, t.sort)
}

// minLoose returns the smallest loose BV index (large when closed).
func minLoose(t *Term) int {
	if t.loose == 0 {
		return 1 << 30
	}
	best := 1 << 30
	seen := map[[2]int]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t.loose <= d {
			return
		}
		k := [2]int{t.id, d}
		if seen[k] {
			return
		}
		seen[k] = true
		if t.op == OBV {
			i, _ := strconv.Atoi(t.name)
			if i-d < best {
				best = i - d
			}
			return
		}
		if t.op == OLam {
			d += len(t.bs)
		}
		for _, a := range t.args {
			rec(a, d)
		}
	}
	rec(t, 0)
	return best
}

func composite(S *Term) bool {
	switch S.op {
	case OConcat, OUnit, OIte, OFlatMap, OEmpty:
		return true
	}
	return false
}

func usesBV0(body *Term) bool { return minLoose(body) == 0 }

// inRange decides the comparisons in the body of a bounded operator that its range 0 <= #0 < n settles.
func inRange(n, lam *Term) *Term {
	if len(lam.bs) != 1 || n.op == OInt {
		return lam
	}
	body := lam.args[0]
	memo := map[[2]int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t.loose <= d || len(t.args) == 0 {
			return t
		}
		k := [2]int{t.id, d}
		if r, ok := memo[k]; ok {
			return r
		}
		r := t
		if t.op == OLe0 {
			bv, nn := mkBV(d, IntS), shift(n, d+1, 0)
			dist := func(kb, kn int64) *big.Int {
				l := newLin()
				l.addTerm(big1, t.args[0])
				l.addTerm(big.NewInt(-kb), bv)
				l.addTerm(big.NewInt(-kn), nn)
				l.norm()
				if len(l.ks) == 0 {
					return l.c
				}
				return nil
			}
			if c := dist(1, -1); c != nil && c.Cmp(big1) <= 0 {
				r = True
			} else if c := dist(-1, 1); c != nil && c.Sign() >= 0 {
				r = False
			} else if c := dist(-1, 0); c != nil && c.Sign() <= 0 {
				r = True
			} else if c := dist(1, 0); c != nil && c.Sign() > 0 {
				r = False
			}
		} else {
			dd := d
			if t.op == OLam {
				dd += len(t.bs)
			}
			as := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				as[i] = rec(a, dd)
				same = same && as[i] == a
			}
			if !same {
				r = rebuild(t, as)
			}
		}
		memo[k] = r
		return r
	}
	if b := rec(body, 0); b != body {
		return mkLamRaw(lam.bs, b)
	}
	return lam
}

func mkEx(n, lam *Term) *Term {
	lam = inRange(n, lam)
	body := lam.args[0]
	if body == False {
		return False
	}
	if n.op == OInt {
		if n.ival.Sign() <= 0 {
			return False
		}
		if n.ival.IsInt64() && n.ival.Int64() <= unrollMax {
			var ds []*Term
			for i := int64(0); i < n.ival.Int64(); i++ {
				ds = append(ds, inst(lam, mkInt(i)))
			}
			return mkOr(ds...)
		}
	}
	if !usesBV0(body) {
		return mkAnd(mkLt(mkInt(0), n), shift(body, -1, 0))
	}
	if n.op == OIte {
		c := n.args[0]
		l1, l2 := lam, lam
		if c.loose == 0 {
			nc := mkNot(c)
			l1 = mkLamRaw(lam.bs, subst(body, map[*Term]*Term{c: True, nc: False}))
			l2 = mkLamRaw(lam.bs, subst(body, map[*Term]*Term{c: False, nc: True}))
		}
		return mkIte(c, mkEx(n.args[1], l1), mkEx(n.args[2], l2))
	}
	if n.op == OFlatMap {
		panic("bad n")
	}
	// hoist conjuncts that do not depend on the variable
	if body.op == OAnd {
		var in, out []*Term
		for _, c := range body.args {
			if usesBV0(c) {
				in = append(in, c)
			} else {
				out = append(out, shift(c, -1, 0))
			}
		}
		if len(out) > 0 {
			return mkAnd(append(out, mkEx(n, mkLamRaw(lam.bs, mkAnd(in...))))...)
		}
	}
	if body.op == OOr {
		var in, out []*Term
		for _, c := range body.args {
			if usesBV0(c) {
				in = append(in, c)
			} else {
				out = append(out, shift(c, -1, 0))
			}
		}
		if len(out) > 0 {
			return mkOr(mkAnd(mkLt(mkInt(0), n), mkOr(out...)), mkEx(n, mkLamRaw(lam.bs, mkOr(in...))))
		}
	}
	if body.op == OIte && !usesBV0(body.args[0]) {
		return mkIte(shift(body.args[0], -1, 0), mkEx(n, mkLamRaw(lam.bs, body.args[1])), mkEx(n, mkLamRaw(lam.bs, body.args[2])))
	}
	if S, p := seqDep(n, lam); S != nil && composite(S) {
		return exSeq(S, p)
	}
	return raw(OEx, BoolS, "", n, lam)
}

// exSeq: some element of S satisfies p.
func exSeq(S, p *Term) *Term {
	switch S.op {
	case OEmpty:
		return False
	case OUnit:
		return inst(p, S.args[0])
	case OConcat:
		var ds []*Term
		for _, a := range S.args {
			ds = append(ds, exSeq(a, p))
		}
		return mkOr(ds...)
	case OIte:
		return mkIte(S.args[0], exSeq(S.args[1], p), exSeq(S.args[2], p))
	case OFlatMap:
		l := S.args[1]
		return mkEx(S.args[0], mkLamRaw(l.bs, exSeq(l.args[0], shift(p, 1, 0))))
	}
	// raw
	body := inst(shift(p, 1, 0), mkNth(shift(S, 1, 0), mkBV(0, IntS)))
	if body == False {
		return False
	}
	if !usesBV0(body) {
		return mkAnd(mkNot(mkIsEmpty(S)), shift(body, -1, 0))
	}
	return mkExRaw(mkLen(S), mkLamRaw([]*Sort{IntS}, body))
}
func mkExRaw(n, lam *Term) *Term {
	body := lam.args[0]
	if body.op == OAnd || body.op == OOr || body.op == OIte || n.op == OInt {
		return mkEx(n, lam)
	}
	return raw(OEx, BoolS, "", n, lam)
}

func mkFirst(n, lam *Term) *Term {
	lam = inRange(n, lam)
	body := lam.args[0]
	if n.op == OInt && n.ival.Sign() <= 0 {
		return mkInt(0)
	}
	if body == False {
		if nonneg(n) {
			return n
		}
		return mkIte(mkLe(n, mkInt(0)), mkInt(0), n)
	}
	if body == True {
		return mkIte(mkLt(mkInt(0), n), mkInt(0), mkInt(0))
	}
	if n.op == OInt && n.ival.IsInt64() && n.ival.Int64() <= unrollMax {
		N := n.ival.Int64()
		r := mkInt(N)
		for i := N - 1; i >= 0; i-- {
			r = mkIte(inst(lam, mkInt(i)), mkInt(i), r)
		}
		return r
	}
	if !usesBV0(body) {
		if nonneg(n) {
			return mkIte(shift(body, -1, 0), mkInt(0), n)
		}
	}
	// hoist conjuncts independent of the variable: First(n, c ∧ B) = ite(c, First(n,B), n)
	if body.op == OAnd && nonneg(n) {
		var in, out []*Term
		for _, c := range body.args {
			if usesBV0(c) {
				in = append(in, c)
			} else {
				out = append(out, shift(c, -1, 0))
			}
		}
		if len(out) > 0 {
			return mkIte(mkAnd(out...), mkFirst(n, mkLamRaw(lam.bs, mkAnd(in...))), n)
		}
	}
	return raw(OFirst, IntS, "", n, lam)
}

func mkFlatMap(n, lam *Term) *Term {
	lam = inRange(n, lam)
	body := lam.args[0]
	s := body.sort
	if body == mkEmpty(s) {
		return body
	}
	if n.op == OInt {
		if n.ival.Sign() <= 0 {
			return mkEmpty(s)
		}
		if n.ival.IsInt64() && n.ival.Int64() <= unrollMax {
			var ps []*Term
			for i := int64(0); i < n.ival.Int64(); i++ {
				ps = append(ps, inst(lam, mkInt(i)))
			}
			return mkConcat(s, ps...)
		}
	}
	if body.op == OIte && !usesBV0(body.args[0]) {
		return mkIte(shift(body.args[0], -1, 0), mkFlatMap(n, mkLamRaw(lam.bs, body.args[1])), mkFlatMap(n, mkLamRaw(lam.bs, body.args[2])))
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkFlatMap(n.args[1], lam), mkFlatMap(n.args[2], lam))
	}
	if S, p := seqDep(n, lam); S != nil {
		if pb := p.args[0]; pb.op == OUnit && pb.args[0].op == OBV && pb.args[0] == mkBV(0, S.sort.Elem) && S.sort == s {
			return S
		}
		if composite(S) {
			return fmSeq(s, S, p)
		}
	}
	return raw(OFlatMap, s, "", n, lam)
}

func fmSeq(s *Sort, S, p *Term) *Term {
	switch S.op {
	case OEmpty:
		return mkEmpty(s)
	case OUnit:
		return inst(p, S.args[0])
	case OConcat:
		var ds []*Term
		for _, a := range S.args {
			ds = append(ds, fmSeq(s, a, p))
		}
		return mkConcat(s, ds...)
	case OIte:
		return mkIte(S.args[0], fmSeq(s, S.args[1], p), fmSeq(s, S.args[2], p))
	case OFlatMap:
		l := S.args[1]
		return mkFlatMap(S.args[0], mkLamRaw(l.bs, fmSeq(s, l.args[0], shift(p, 1, 0))))
	}
	body := inst(shift(p, 1, 0), mkNth(shift(S, 1, 0), mkBV(0, IntS)))
	return mkFlatMapLeaf(mkLen(S), mkLamRaw([]*Sort{IntS}, body))
}
func mkFlatMapLeaf(n, lam *Term) *Term {
	body := lam.args[0]
	if body == mkEmpty(body.sort) || n.op == OInt || (body.op == OIte && !usesBV0(body.args[0])) {
		return mkFlatMap(n, lam)
	}
	if body.op == OUnit && body.args[0].op == ONth && body.args[0].args[1] == mkBV(0, IntS) && minLoose(body.args[0].args[0]) > 0 {
		S := shift(body.args[0].args[0], -1, 0)
		if mkLen(S) == n {
			return S
		}
	}
	return raw(OFlatMap, body.sort, "", n, lam)
}

func mkSum(n, lam *Term) *Term {
	lam = inRange(n, lam)
	if lam.args[0].op == OInt && nonneg(n) {
		return mkMul(lam.args[0], n)
	}
	if n.op == OInt && n.ival.IsInt64() && n.ival.Int64() <= unrollMax {
		r := mkInt(0)
		for i := int64(0); i < n.ival.Int64(); i++ {
			r = mkAdd(r, inst(lam, mkInt(i)))
		}
		return r
	}
	return raw(OSum, IntS, "", n, lam)
}

// Iter: args = k, lam(j, st...) -> tuple, inits...
func mkIter(leaf string, s *Sort, args []*Term) *Term {
	k := args[0]
	li, _ := strconv.Atoi(leaf)
	if k.op == OInt && k.ival.Sign() <= 0 {
		return args[2+li]
	}
	if k.op == OInt && k.ival.IsInt64() && k.ival.Int64() <= 4 {
		st := append([]*Term{}, args[2:]...)
		for i := int64(0); i < k.ival.Int64(); i++ {
			r := inst(args[1], append([]*Term{mkInt(i)}, st...)...)
			st = append([]*Term{}, r.args...)
		}
		return st[li]
	}
	return raw(OIter, s, leaf, args...)
}

// ---------- applications with folding

var foldS = map[string]func(a []string) string{
	"lower":     func(a []string) string { return strings.ToLower(a[0]) },
	"upper":     func(a []string) string { return strings.ToUpper(a[0]) },
	"trimspace": func(a []string) string { return strings.TrimSpace(a[0]) },
	"trimright": func(a []string) string { return strings.TrimRight(a[0], a[1]) },
	"trimleft":  func(a []string) string { return strings.TrimLeft(a[0], a[1]) },
	"trim":      func(a []string) string { return strings.Trim(a[0], a[1]) },
	"replace1":  func(a []string) string { return strings.Replace(a[0], a[1], a[2], 1) },
	"replaceall": func(a []string) string {
		return strings.Replace(a[0], a[1], a[2], -1)
	},
}

// endKnown: every alternative ends in literal text.
func endKnown(t *Term) bool {
	switch t.op {
	case OStrC:
		return t.name != ""
	case OConcat:
		return endKnown(t.args[len(t.args)-1])
	case OIte:
		return endKnown(t.args[1]) && endKnown(t.args[2])
	}
	return false
}

func bitOf(x *big.Int, k uint) bool {
	return new(big.Int).Rsh(x, k).Bit(0) == 1 // Rsh rounds towards minus infinity
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	allStr := len(args) > 0
	for _, a := range args {
		if a.op != OStrC {
			allStr = false
		}
	}
	if allStr {
		if f, ok := foldS[name]; ok {
			as := make([]string, len(args))
			for i, a := range args {
				as[i] = a.name
			}
			return mkStr(f(as))
		}
	}
	switch name {
	case "bit":
		// bit(x, k): the k-th bit of x in two's complement
		x := args[0]
		if x.op == OInt {
			return mkBool(bitOf(x.ival, uint(args[1].ival.Int64())))
		}
		if x.op == OIte && (x.args[1].op == OInt || x.args[2].op == OInt) {
			return mkIte(x.args[0], mkApp(name, s, x.args[1], args[1]), mkApp(name, s, x.args[2], args[1]))
		}
	case "lower", "upper":
		if args[0].op == OApp && args[0].name == name {
			return args[0]
		}
		if args[0].op == OIte {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1]), mkApp(name, s, args[0].args[2]))
		}
	case "contains":
		x, p := args[0], args[1]
		if p.op == OStrC && p.name == "" || x == p {
			return True
		}
		if x.op == OStrC && p.op == OStrC {
			return mkBool(strings.Contains(x.name, p.name))
		}
		if p.op == OStrC && x.op == OConcat {
			for _, q := range x.args {
				if q.op == OStrC && strings.Contains(q.name, p.name) {
					return True
				}
			}
		}
		if x.op == OIte && p.isConst() {
			return mkIte(x.args[0], mkApp(name, s, x.args[1], p), mkApp(name, s, x.args[2], p))
		}
		if x.op == OConcat {
			for _, q := range x.args {
				if q == p {
					return True
				}
			}
		}
	case "prefixof":
		p, x := args[0], args[1]
		if p.op == OStrC && p.name == "" || x == p {
			return True
		}
		if p.op == OStrC && x.op == OStrC {
			return mkBool(strings.HasPrefix(x.name, p.name))
		}
		if p.op == OStrC && x.op == OConcat && x.args[0].op == OStrC {
			h := x.args[0].name
			if len(h) >= len(p.name) {
				return mkBool(strings.HasPrefix(h, p.name))
			}
			if !strings.HasPrefix(p.name, h) {
				return False
			}
		}
		if x.op == OIte && p.isConst() {
			return mkIte(x.args[0], mkApp(name, s, p, x.args[1]), mkApp(name, s, p, x.args[2]))
		}
	case "suffixof":
		p, x := args[0], args[1]
		if p.op == OStrC && p.name == "" || x == p {
			return True
		}
		if p.op == OStrC && x.op == OStrC {
			return mkBool(strings.HasSuffix(x.name, p.name))
		}
		if p.op == OStrC && x.op == OConcat {
			l := x.args[len(x.args)-1]
			if l.op == OStrC {
				if len(l.name) >= len(p.name) {
					return mkBool(strings.HasSuffix(l.name, p.name))
				}
				if !strings.HasSuffix(p.name, l.name) {
					return False
				}
			}
		}
		if x.op == OIte && p.isConst() {
			return mkIte(x.args[0], mkApp(name, s, p, x.args[1]), mkApp(name, s, p, x.args[2]))
		}
	case "indexof":
		if allStr {
			return mkInt(int64(strings.Index(args[0].name, args[1].name)))
		}
	case "strlt":
		if allStr {
			return mkBool(args[0].name < args[1].name)
		}
		if args[0] == args[1] {
			return False
		}
	case "itoa":
		if args[0].op == OInt {
			return mkStr(args[0].ival.String())
		}
	case "trimsuffix":
		x, p := args[0], args[1]
		if p.op == OStrC {
			if x.op == OStrC {
				return mkStr(strings.TrimSuffix(x.name, p.name))
			}
			if x.op == OConcat {
				l := x.args[len(x.args)-1]
				if l.op == OStrC && len(l.name) >= len(p.name) {
					if strings.HasSuffix(l.name, p.name) {
						return mkConcat(StrS, append(append([]*Term{}, x.args[:len(x.args)-1]...), mkStr(strings.TrimSuffix(l.name, p.name)))...)
					}
					return x
				}
				if l.op == OIte && endKnown(l) {
					pre := x.args[:len(x.args)-1]
					at := func(y *Term) *Term {
						return mkApp(name, s, mkConcat(StrS, append(append([]*Term{}, pre...), y)...), p)
					}
					return mkIte(l.args[0], at(l.args[1]), at(l.args[2]))
				}
			}
			if x.op == OIte {
				return mkIte(x.args[0], mkApp(name, s, x.args[1], p), mkApp(name, s, x.args[2], p))
			}
		}
	case "trimprefix":
		x, p := args[0], args[1]
		if p.op == OStrC {
			if x.op == OStrC {
				return mkStr(strings.TrimPrefix(x.name, p.name))
			}
			if x.op == OConcat && x.args[0].op == OStrC && len(x.args[0].name) >= len(p.name) {
				if strings.HasPrefix(x.args[0].name, p.name) {
					return mkConcat(StrS, append([]*Term{mkStr(strings.TrimPrefix(x.args[0].name, p.name))}, x.args[1:]...)...)
				}
				return x
			}
		}
	case "join":
		S, sep := args[0], args[1]
		ps := pieces(S)
		all := true
		for _, p := range ps {
			if p.op != OUnit {
				all = false
			}
		}
		if all {
			var out []*Term
			for i, p := range ps {
				if i > 0 {
					out = append(out, sep)
				}
				out = append(out, p.args[0])
			}
			return mkConcat(StrS, out...)
		}
		if S.op == OIte {
			return mkIte(S.args[0], mkApp("join", s, S.args[1], sep), mkApp("join", s, S.args[2], sep))
		}
		// a separator before every element but the first
		sepAt := func() *Term { return mkIte(mkLe0(mkBV(0, IntS)), mkStr(""), shift(sep, 1, 0)) }
		if S.op == OFlatMap && S.args[1].args[0].op == OUnit {
			return mkFlatMap(S.args[0], mkLamRaw(S.args[1].bs, mkConcat(StrS, sepAt(), S.args[1].args[0].args[0])))
		}
		if S.op != OFlatMap && S.op != OConcat && S.op != OUnit && S.op != OEmpty {
			return mkFlatMap(mkLen(S), mkLamRaw([]*Sort{IntS}, mkConcat(StrS, sepAt(), mkNth(shift(S, 1, 0), mkBV(0, IntS)))))
		}
	}
	return raw(OApp, s, name, args...)
}
