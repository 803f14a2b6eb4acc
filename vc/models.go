// Models (assumed contracts) of library functions.
package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func errIf(c *Term, msg *Term) *Term { return mkIte(c, mkMkIf("error", msg), IfNil) }

func (e *Exec) die(st *State, why string, ts ...*Term) {
	e.lost++
	s := st.clone()
	e.event(s, why, ts...)
	e.exits = append(e.exits, s)
}

// indexOf with literal splitting.
func (e *Exec) model(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State, bool) {
	tm := func(i int) *Term { return e.term(st, args[i]) }
	str := func(op string, n int) (Val, *State, bool) {
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = tm(i)
		}
		return mkApp(op, StrS, ts...), st, true
	}
	switch name {
	case "fmt.Sprintf", "fmt.Errorf":
		fm, ok := constStr(tm(0))
		as := e.variadic(st, args[1])
		var r *Term
		if ok && as != nil {
			r, st = e.sprintf(f, st, fm, as, pos)
		} else {
			_, s := e.sliceContent(st, args[1])
			r = mkApp("fmt:sprintf", StrS, tm(0), s)
		}
		if name == "fmt.Errorf" {
			return mkMkIf("error", r), st, true
		}
		return r, st, true
	case "fmt.Sprint", "fmt.Sprintln":
		as := e.variadic(st, args[0])
		if len(as) == 1 {
			r, s := e.fmtVerb(f, st, "%v", as[0], pos)
			if name == "fmt.Sprintln" {
				r = mkConcat(StrS, r, mkStr("\n"))
			}
			return r, s, true
		}
		_, s := e.sliceContent(st, args[0])
		return mkApp(name, StrS, s), st, true
	case "errors.New":
		return mkMkIf("error", tm(0)), st, true
	case "strings.ToLower":
		return str("lower", 1)
	case "bytes.ToLower":
		_, s := e.sliceContent(st, args[0])
		return mkSl(False, mkApp("lower", StrS, s)), st, true
	case "strings.ToUpper":
		return str("upper", 1)
	case "strings.TrimSpace":
		return str("trimspace", 1)
	case "strings.TrimSuffix":
		return str("trimsuffix", 2)
	case "strings.TrimPrefix":
		return str("trimprefix", 2)
	case "strings.TrimRight":
		return str("trimright", 2)
	case "strings.TrimLeft":
		return str("trimleft", 2)
	case "strings.Trim":
		return str("trim", 2)
	case "strings.Title":
		return str("title", 1)
	case "strings.ReplaceAll":
		return str("replaceall", 3)
	case "strings.Replace":
		n := tm(3)
		if n.op == OInt {
			if n.ival.Sign() < 0 {
				return str("replaceall", 3)
			}
			if n.ival.Int64() == 1 {
				return str("replace1", 3)
			}
		}
		return mkApp("replaceN", StrS, tm(0), tm(1), tm(2), n), st, true
	case "strings.Contains", "bytes.Contains":
		if name == "bytes.Contains" {
			return mkApp("contains", BoolS, mkSlSeq(tm(0)), mkSlSeq(tm(1))), st, true
		}
		return mkApp("contains", BoolS, tm(0), tm(1)), st, true
	case "strings.ContainsAny":
		if cs := tm(1); cs.op == OStrC && isASCII(cs.name) {
			r := False
			for i := range cs.name {
				r = mkOr(r, mkApp("contains", BoolS, tm(0), mkStr(cs.name[i:i+1])))
			}
			return r, st, true
		}
		return mkApp("containsany", BoolS, tm(0), tm(1)), st, true
	case "strings.HasPrefix":
		return mkApp("prefixof", BoolS, tm(1), tm(0)), st, true
	case "strings.HasSuffix":
		return mkApp("suffixof", BoolS, tm(1), tm(0)), st, true
	case "bytes.HasPrefix":
		return mkApp("prefixof", BoolS, mkSlSeq(tm(1)), mkSlSeq(tm(0))), st, true
	case "bytes.HasSuffix":
		return mkApp("suffixof", BoolS, mkSlSeq(tm(1)), mkSlSeq(tm(0))), st, true
	case "bytes.Equal":
		return mkEq(mkSlSeq(tm(0)), mkSlSeq(tm(1))), st, true
	case "strings.Index":
		return mkApp("indexof", IntS, tm(0), tm(1)), st, true
	case "strings.LastIndex":
		return mkApp("lastindexof", IntS, tm(0), tm(1)), st, true
	case "strings.IndexByte":
		return mkApp("indexof", IntS, tm(0), mkFromCode(tm(1))), st, true
	case "strings.IndexFunc", "strings.LastIndexFunc", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.FieldsFunc":
		if e.safe != nil && e.spec == 0 && (name == "strings.IndexFunc" || name == "strings.LastIndexFunc") {
			if c, ok := args[1].(*Clo); ok && c.fn.Blocks != nil && len(c.binds) > 0 {
				// called on some of the runes, in order; it may keep a state of its own
				st = e.safeCallback(st, c, pos)
				e.safe.loopN++
				r := mkVar("sc"+itoa(e.safe.loopN)+".index", IntS)
				e.facts = append(e.facts, mkLe(mkInt(-1), r), mkOr(mkEq(r, mkInt(-1)), mkLt(r, mkLen(tm(0)))))
				return r, st, true
			}
		}
		p := e.predicate(st, args[1], pos)
		switch name {
		case "strings.IndexFunc":
			return mkApp("indexfunc", IntS, tm(0), p), st, true
		case "strings.LastIndexFunc":
			return mkApp("lastindexfunc", IntS, tm(0), p), st, true
		case "strings.FieldsFunc":
			return mkSl(False, mkApp("fieldsfunc", SeqOf(StrS), tm(0), p)), st, true
		case "strings.TrimFunc":
			if b := p.args[0]; b.op == OApp && b.name == "unicode.IsSpace" && b.args[0].op == OBV {
				return mkApp("trimspace", StrS, tm(0)), st, true
			}
			return mkApp("trimfunc", StrS, tm(0), p), st, true
		case "strings.TrimLeftFunc":
			return mkApp("trimleftfunc", StrS, tm(0), p), st, true
		}
		return mkApp("trimrightfunc", StrS, tm(0), p), st, true
	case "strings.EqualFold":
		e.assume["strings.EqualFold(a,b) is lower(a)==lower(b)"] = true
		return mkEq(mkApp("lower", StrS, tm(0)), mkApp("lower", StrS, tm(1))), st, true
	case "strings.Join":
		_, s := e.sliceContent(st, args[0])
		return mkApp("join", StrS, s, tm(1)), st, true
	case "strings.Split":
		return mkSl(False, mkApp("split", SeqOf(StrS), tm(0), tm(1))), st, true
	case "strings.Fields":
		return mkSl(False, mkApp("fields", SeqOf(StrS), tm(0))), st, true
	case "strings.SplitN":
		n := tm(2)
		s, sep := tm(0), tm(1)
		if n.op == OInt && n.ival.Int64() == 2 && sep.op == OStrC && len(sep.name) == 1 {
			c := mkApp("contains", BoolS, s, sep)
			i := mkApp("indexof", IntS, s, sep)
			i1 := mkAdd(i, mkInt(1))
			two := mkConcat(SeqOf(StrS), mkUnit(mkSub(s, mkInt(0), i)), mkUnit(mkSub(s, i1, mkSubI(mkLen(s), i1))))
			return mkSl(False, mkIte(c, two, mkUnit(s))), st, true
		}
		return mkSl(False, mkApp("splitn", SeqOf(StrS), s, sep, n)), st, true
	case "strings.Repeat":
		n := tm(1)
		e.oblige("bounds", "strings.Repeat count", st, mkLe(mkInt(0), n), pos)
		return mkFlatMap(n, mkLamRaw([]*Sort{IntS}, shift(tm(0), 1, 0))), st, true
	case "strconv.Itoa":
		return mkApp("itoa", StrS, tm(0)), st, true
	case "strconv.FormatInt", "strconv.FormatUint":
		b := tm(1)
		if b.op == OInt && b.ival.Int64() == 10 {
			return mkApp("itoa", StrS, tm(0)), st, true
		}
		return mkApp("formatint", StrS, tm(0), b), st, true
	case "strconv.AppendInt", "strconv.AppendUint":
		_, dst := e.sliceContent(st, args[0])
		b := tm(2)
		x := mkApp("formatint", StrS, tm(1), b)
		if b.op == OInt && b.ival.Int64() == 10 {
			x = mkApp("itoa", StrS, tm(1))
		}
		return mkSl(False, mkConcat(StrS, dst, x)), st, true
	case "strconv.FormatFloat":
		return mkApp(name, StrS, tm(0), tm(1), tm(2), tm(3)), st, true
	case "strconv.AppendFloat":
		_, dst := e.sliceContent(st, args[0])
		return mkSl(False, mkConcat(StrS, dst, mkApp("strconv.FormatFloat", StrS, tm(1), tm(2), tm(3), tm(4)))), st, true
	case "strconv.Atoi":
		s := tm(0)
		return Tuple{mkApp("atoi", IntS, s), errIf(mkApp("atoi?", BoolS, s), mkApp("atoi!", StrS, s))}, st, true
	case "strconv.ParseInt", "strconv.ParseUint":
		s := tm(0)
		as := []*Term{s, tm(1), tm(2)}
		return Tuple{mkApp(name, IntS, as...), errIf(mkApp(name+"?", BoolS, as...), mkApp(name+"!", StrS, as...))}, st, true
	case "strconv.ParseFloat":
		s := tm(0)
		as := []*Term{s, tm(1)}
		return Tuple{mkApp(name, FltS, as...), errIf(mkApp(name+"?", BoolS, as...), mkApp(name+"!", StrS, as...))}, st, true
	case "strconv.ParseBool":
		s := tm(0)
		var ts, fs []*Term
		for _, v := range []string{"1", "t", "T", "TRUE", "true", "True"} {
			ts = append(ts, mkEq(s, mkStr(v)))
		}
		for _, v := range []string{"0", "f", "F", "FALSE", "false", "False"} {
			fs = append(fs, mkEq(s, mkStr(v)))
		}
		t := mkOr(ts...)
		return Tuple{t, errIf(mkNot(mkOr(t, mkOr(fs...))), mkApp("parsebool!", StrS, s))}, st, true
	case "strconv.Quote":
		return mkApp("goquote", StrS, tm(0)), st, true
	case "reflect.DeepEqual":
		a, b := tm(0), tm(1)
		if a.op == OMkIf && b.op == OMkIf {
			if a.name != b.name {
				return False, st, true
			}
			t := e.P.typeByName[a.name]
			return e.deepEq(st, st, a.args[0], b.args[0], t, 0), st, true
		}
		e.unsup("reflect.DeepEqual of unknown dynamic types")
	case "sort.Slice", "sort.SliceStable":
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		c, ok2 := args[1].(*Clo)
		if ok && ok2 {
			a := f.prov[mi.X]
			var cell *CellSl
			if cs, ok := f.env[mi.X].(*CellSl); ok {
				cell = cs
			}
			if a != nil || cell != nil {
				var nilf, s *Term
				if cell != nil {
					nilf, s = False, st.cells[cell.ref]
				} else {
					cur := e.loadAddr(st, a, pos)
					nilf, s = mkSlNil(cur), mkSlSeq(cur)
				}
				// the order as a relation on elements
				freshN++
				i := mkVar("k!"+itoa(freshN)+"i", IntS)
				j := mkVar("k!"+itoa(freshN)+"j", IntS)
				s2 := st.clone()
				s2.guard = mkAnd(st.guard, mkLe(mkInt(0), i), mkLt(i, mkLen(s)), mkLe(mkInt(0), j), mkLt(j, mkLen(s)))
				r, _ := e.callFn(c.fn, []Val{i, j}, c.binds, s2, pos)
				rel := r.(*Term)
				es := s.sort.Elem
				freshN++
				x := mkVar("~x!"+itoa(freshN), es)
				y := mkVar("~y!"+itoa(freshN), es)
				rel = subst(rel, map[*Term]*Term{mkNth(s, i): x, mkNth(s, j): y})
				if hasVar(rel, i) || hasVar(rel, j) {
					e.unsup("sort.Slice order is not a relation on elements")
				}
				ns := mkApp("sortby", s.sort, s, mkLam([]*Term{x, y}, rel))
				if cell != nil {
					st.cells[cell.ref] = ns
				} else {
					e.store(st, a, nil, mkSl(nilf, ns), pos)
				}
				return nil, st, true
			}
		}
		e.unsup("sort.Slice")
	case "sort.Strings":
		if c, ok := args[0].(*CellSl); ok {
			st.cells[c.ref] = mkApp("sorted", SeqOf(StrS), st.cells[c.ref])
			return nil, st, true
		}
		if a := f.prov[cc.Args[0]]; a != nil {
			cur := e.loadAddr(st, a, pos)
			e.store(st, a, nil, mkSl(mkSlNil(cur), mkApp("sorted", SeqOf(StrS), mkSlSeq(cur))), pos)
			return nil, st, true
		}
		e.unsup("sort.Strings")
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		ts := []*Term{mkInt(1)}
		if name == "os.Exit" {
			ts = []*Term{tm(0)}
		} else {
			e.assume["log.Fatal output text is not compared"] = true
		}
		e.die(st, "exit", ts...)
		return nil, nil, true
	case "net/url.QueryEscape", "net/url.PathEscape":
		return str(name, 1)
	case "path/filepath.Base", "path.Base", "path/filepath.Dir":
		return str(name, 1)
	case "unicode.IsLetter", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsDigit":
		return mkApp(name, BoolS, tm(0)), st, true
	case "unicode.ToLower", "unicode.ToUpper":
		return mkApp(name, IntS, tm(0)), st, true
	}
	if v, ns, ok := e.modelLib(f, st, name, fn, args, pos); ok {
		return v, ns, true
	}
	if v, ns, ok := e.modelIO(f, st, name, fn, args, pos, cc); ok {
		return v, ns, true
	}
	return nil, nil, false
}

func itoa(i int) string { return mkInt(int64(i)).String() }

// ifaceArgs renders the arguments of a variadic ...interface{} call as one string term.
func (e *Exec) joinPrint(f *frame, st *State, v Val, sep, end string, pos token.Pos) (*Term, *State) {
	as := e.variadic(st, v)
	if as == nil {
		_, s := e.sliceContent(st, v)
		return mkConcat(StrS, mkApp("fmt:print", StrS, s), mkStr(end)), st
	}
	var ps []*Term
	for i, a := range as {
		if i > 0 {
			ps = append(ps, mkStr(sep))
		}
		var t *Term
		t, st = e.fmtVerb(f, st, "%v", a, pos)
		ps = append(ps, t)
	}
	ps = append(ps, mkStr(end))
	return mkConcat(StrS, ps...), st
}

func (e *Exec) modelIO(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State, bool) {
	tm := func(i int) *Term { return e.term(st, args[i]) }
	sig := fn.Signature
	switch name {
	case "fmt.Println", "fmt.Print":
		sep, end := " ", "\n"
		if name == "fmt.Print" {
			sep, end = "", ""
		}
		t, s := e.joinPrint(f, st, args[0], sep, end, pos)
		e.event(s, "stdout", t)
		return Tuple{mkInt(0), IfNil}, s, true
	case "fmt.Printf":
		fm, ok := constStr(tm(0))
		as := e.variadic(st, args[1])
		var t *Term
		if ok && as != nil {
			t, st = e.sprintf(f, st, fm, as, pos)
		} else {
			_, s := e.sliceContent(st, args[1])
			t = mkApp("fmt:sprintf", StrS, tm(0), s)
		}
		e.event(st, "stdout", t)
		return Tuple{mkInt(0), IfNil}, st, true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if isStderr(cc.Args[0]) {
			e.assume["text written to standard error is not compared"] = true
			return Tuple{mkInt(0), IfNil}, st, true
		}
		if r, bt := e.writerBuf(tm(0)); r != nil {
			var t *Term
			if name == "fmt.Fprintf" {
				fm, ok := constStr(tm(1))
				as := e.variadic(st, args[2])
				if ok && as != nil {
					t, st = e.sprintf(f, st, fm, as, pos)
				} else {
					_, s := e.sliceContent(st, args[2])
					t = mkApp("fmt:sprintf", StrS, tm(1), s)
				}
			} else if name == "fmt.Fprintln" {
				t, st = e.joinPrint(f, st, args[1], " ", "\n", pos)
			} else {
				t, st = e.joinPrint(f, st, args[1], "", "", pos)
			}
			e.bufWrite(st, r, bt, t, pos)
			return Tuple{mkLen(t), IfNil}, st, true
		}
		ts := []*Term{}
		for i := range args {
			if i == len(args)-1 {
				_, s := e.sliceContent(st, args[i])
				ts = append(ts, s)
			} else {
				ts = append(ts, tm(i))
			}
		}
		v, s := e.io(st, name, sig, ts...)
		return v, s, true
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	switch {
	case pkg == "database/sql" || pkg == "os" || pkg == "io/ioutil" || strings.HasPrefix(pkg, "golang.org/x/") || pkg == "os/exec" || pkg == "io" || pkg == "syscall":
		if name == "(*database/sql.Rows).Scan" || name == "(*database/sql.Row).Scan" {
			return e.scan(f, st, name, sig, args, pos)
		}
		var ts []*Term
		for i, a := range args {
			if i == len(args)-1 && sig.Variadic() {
				_, s := e.sliceContent(st, a)
				ts = append(ts, s)
				continue
			}
			ts = append(ts, e.term(st, a))
		}
		switch fn.Name() {
		case "Query", "QueryRow":
			if len(ts) > 1 && ts[1].sort == StrS {
				ts[1] = sqlLayout(ts[1])
			}
		}
		switch name {
		case "(*database/sql.Rows).Close":
			e.assume["closing a row stream has no effect that a user could see"] = true
			return e.extVal("ext:"+name, types.Universe.Lookup("error").Type(), []*Term{e.traceOf(st)}), st, true
		case "io/ioutil.ReadFile":
			name = "os.ReadFile"
		case "io/ioutil.ReadAll":
			name = "io.ReadAll"
		}
		v, s := e.io(st, name, sig, ts...)
		return v, s, true
	}
	return nil, nil, false
}

// sqlLayout: the layout of a catalog query (blanks, line ends, the final semicolon) does not matter.
func sqlLayout(t *Term) *Term {
	ps := append([]*Term{}, pieces(t)...)
	for i, p := range ps {
		if p.op != OStrC {
			continue
		}
		var b []byte
		quoted, ok := false, true
		for j := 0; j < len(p.name); j++ {
			c := p.name[j]
			if c == '\'' {
				quoted = !quoted
			}
			if c == '-' && j+1 < len(p.name) && p.name[j+1] == '-' {
				ok = false
			}
			if !quoted && (c == ' ' || c == '\t' || c == '\n') {
				if len(b) == 0 && i == 0 || len(b) > 0 && b[len(b)-1] == ' ' {
					continue
				}
				c = ' '
			}
			b = append(b, c)
		}
		s := string(b)
		if ok && i == len(ps)-1 && !quoted {
			s = strings.TrimRight(s, " ")
			s = strings.TrimRight(strings.TrimSuffix(s, ";"), " ")
		}
		if ok && (!quoted || len(ps) > 1) {
			ps[i] = mkStr(s)
		}
	}
	return mkConcat(StrS, ps...)
}

func isStderr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Global:
			return x.Pkg.Pkg.Path() == "os" && x.Name() == "Stderr"
		default:
			return false
		}
	}
}

// scan: each destination receives a value determined by the history.
func (e *Exec) scan(f *frame, st *State, name string, sig *types.Signature, args []Val, pos token.Pos) (Val, *State, bool) {
	as := e.variadic(st, args[1])
	if as == nil {
		e.unsup("Scan with unknown destinations")
	}
	tr := e.event(st, name, tmOf(e, st, args[0]), mkInt(int64(len(as))))
	for i, a := range as {
		if a.op != OMkIf {
			e.unsup("Scan destination of unknown type")
		}
		t := e.P.typeByName[a.name]
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			e.unsup("Scan destination is not a pointer")
		}
		el := pt.Elem()
		var v *Term
		if u, ok := el.Underlying().(*types.Pointer); ok {
			// *T: nil for NULL
			r := e.newRef()
			e.cellT[r] = u.Elem()
			st.cells[r] = mkApp("ext:scan:"+itoa(i), sortOf(u.Elem()), tr)
			v = mkIte(mkApp("ext:scannull:"+itoa(i), BoolS, tr), mkInt(0), r)
		} else {
			v = mkApp("ext:scan:"+itoa(i), sortOf(el), tr)
		}
		e.objStore(st, a.args[0], el, v)
	}
	return e.extVal("ext:"+name, types.Universe.Lookup("error").Type(), []*Term{tr}), st, true
}

func tmOf(e *Exec, st *State, v Val) *Term { return e.term(st, v) }

// predicate evaluates a function of one rune symbolically: what it does, not what it is called.
func (e *Exec) predicate(st *State, fv Val, pos token.Pos) *Term {
	freshN++
	x := mkVar("~r!"+itoa(freshN), IntS)
	s := st.clone()
	var r Val
	var ns *State
	switch c := fv.(type) {
	case *Clo:
		if c.fn.Blocks == nil {
			v, s2, ok := e.model(nil, s, c.fn.String(), c.fn, []Val{x}, pos, nil)
			if !ok {
				e.unsup("predicate %s", c.fn)
			}
			r, ns = v, s2
			break
		}
		r, ns = e.callFn(c.fn, []Val{x}, c.binds, s, pos)
	default:
		e.unsup("unknown predicate")
	}
	if ns == nil || ns.guard != st.guard || ns.trace != st.trace {
		e.unsup("predicate with effects")
	}
	for k, v := range ns.cells {
		if w, ok := st.cells[k]; ok && w != v {
			e.unsup("predicate with effects")
		}
	}
	for k, v := range ns.heap {
		if w, ok := st.heap[k]; ok && w != v {
			e.unsup("predicate with effects")
		}
	}
	return mkLam([]*Term{x}, r.(*Term))
}

func (e *Exec) modelInvoke(f *frame, st *State, recv *Term, m *types.Func, args []Val, pos token.Pos, cc *ssa.CallCommon) (Val, *State, bool) {
	if m.Name() == "Error" && len(args) == 0 {
		if recv.op == OMkIf && recv.name == "error" {
			return recv.args[0], st, true
		}
		if recv.op == OIte {
			return nil, nil, false
		}
		e.oblige("nil", "Error() on nil error", st, mkNot(mkEq(mkTag(recv), mkInt(0))), pos)
		return mkIfVal("error", StrS, recv), st, true
	}
	it := tname(cc.Value.Type())
	switch it {
	case "database/sql.Result", "io.Writer", "io.Reader", "os.FileInfo", "io/fs.FileInfo":
		ts := []*Term{recv}
		for _, a := range args {
			ts = append(ts, e.term(st, a))
		}
		v, s := e.io(st, it+"."+m.Name(), m.Type().(*types.Signature), ts...)
		return v, s, true
	}
	if it == "github.com/k0kubun/sqldef/sqlparser.Encodable" && recv.op != OMkIf && recv.op != OIte && recv != IfNil {
		if t := e.P.namedType("bytes", "Buffer"); t != nil {
			e.assume["an unknown Encodable appends a text that depends on it alone"] = true
			e.oblige("nil", "method call on nil interface", st, mkNot(mkEq(mkTag(recv), mkInt(0))), pos)
			e.bufWrite(st, e.term(st, args[0]), t, mkApp("encodable", StrS, recv), pos)
			return nil, st, true
		}
	}
	if it == "github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes.BinWriter" && recv.op != OMkIf && recv.op != OIte && recv != IfNil {
		// an unknown in-memory writer: the text written to it, as for bytes.Buffer
		if t := e.P.namedType("bytes", "Buffer"); t != nil {
			e.assume["a BinWriter is an in-memory buffer that holds the text written to it"] = true
			e.oblige("nil", "method call on nil interface", st, mkNot(mkEq(mkTag(recv), mkInt(0))), pos)
			_, s := e.sliceContent(st, args[0])
			r := mkApp("sinkref", IntS, recv)
			e.bufSet(st, r, t, mkConcat(StrS, e.bufText(st, r, t), s))
			return Tuple{mkLen(s), IfNil}, st, true
		}
	}
	if it == "github.com/k0kubun/sqldef/adapter.Database" && e.root != nil && recv.op != OMkIf {
		// an unknown database adapter: every method is an external effect
		ts := []*Term{recv}
		for _, a := range args {
			ts = append(ts, e.term(st, a))
		}
		v, s := e.io(st, "Database."+m.Name(), m.Type().(*types.Signature), ts...)
		return v, s, true
	}
	return nil, nil, false
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
