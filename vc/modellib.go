// Models (assumed contracts) of text buffers, regular expressions, URLs, the environment and the MySQL driver's DSN.
package main

import (
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bufStruct: the type of a *strings.Builder or *bytes.Buffer, if t is one.
func bufStruct(t types.Type) types.Type {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	switch tname(p.Elem()) {
	case "strings.Builder", "bytes.Buffer":
		return p.Elem()
	}
	return nil
}

func bufField(t types.Type) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "buf" {
			return i
		}
	}
	return -1
}

func (e *Exec) bufText(st *State, r *Term, t types.Type) *Term {
	e.assume["strings.Builder and bytes.Buffer hold the text written to them"] = true
	return mkSlSeq(mkSel(e.objLoad(st, r, t), bufField(t)))
}

func (e *Exec) bufSet(st *State, r *Term, t types.Type, s *Term) {
	v := e.objLoad(st, r, t)
	i := bufField(t)
	// an empty buffer is the same however it came about
	e.objStore(st, r, t, update(v, t, []pe{{field: i}}, mkSl(mkBool(s == mkStr("")), s)))
}

func (e *Exec) bufWrite(st *State, r *Term, t types.Type, s *Term, pos token.Pos) {
	e.nilCheck(st, r, pos)
	e.bufSet(st, r, t, mkConcat(StrS, e.bufText(st, r, t), s))
}

func (e *Exec) modelBuf(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, *State, bool) {
	if name == "bytes.NewBuffer" || name == "bytes.NewBufferString" {
		_, s := e.sliceContent(st, args[0])
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		r := e.newRef()
		e.cellT[r] = t
		st.cells[r] = zeroOf(t)
		e.bufSet(st, r, t, s)
		return r, st, true
	}
	if rc := fn.Signature.Recv(); rc != nil {
		t := bufStruct(rc.Type())
		if t == nil {
			return nil, nil, false
		}
		r := e.term(st, args[0])
		switch fn.Name() {
		case "WriteString", "Write":
			s := e.term(st, args[1])
			if fn.Name() == "Write" {
				_, s = e.sliceContent(st, args[1])
			}
			e.bufWrite(st, r, t, s, pos)
			return Tuple{mkLen(s), IfNil}, st, true
		case "WriteByte":
			e.bufWrite(st, r, t, mkFromCode(e.term(st, args[1])), pos)
			return IfNil, st, true
		case "WriteRune":
			c := e.term(st, args[1])
			e.bufWrite(st, r, t, e.convert(st, c, types.Typ[types.Rune], types.Typ[types.String]), pos)
			return Tuple{mkInt(1), IfNil}, st, true
		case "String":
			if tname(t) == "strings.Builder" {
				e.nilCheck(st, r, pos)
			}
			return e.bufText(st, r, t), st, true
		case "Bytes":
			e.nilCheck(st, r, pos)
			return mkSl(False, e.bufText(st, r, t)), st, true
		case "Len":
			e.nilCheck(st, r, pos)
			return mkLen(e.bufText(st, r, t)), st, true
		case "Reset":
			e.nilCheck(st, r, pos)
			e.bufSet(st, r, t, mkStr(""))
			return nil, st, true
		case "Grow":
			e.nilCheck(st, r, pos)
			return nil, st, true
		}
		return nil, nil, false
	}
	return nil, nil, false
}

// writerBuf: the buffer behind an io.Writer value.
func (e *Exec) writerBuf(w *Term) (r *Term, t types.Type) {
	if w.op != OMkIf {
		return nil, nil
	}
	wt := e.P.typeByName[w.name]
	if wt == nil {
		return nil, nil
	}
	if t := bufStruct(wt); t != nil {
		return w.args[0], t
	}
	return nil, nil
}

func (e *Exec) modelRegexp(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, *State, bool) {
	tm := func(i int) *Term { return e.term(st, args[i]) }
	switch name {
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		return mkApp(name, IntS, tm(0)), st, true
	case "regexp.MatchString":
		p := tm(0)
		c, ok := constStr(p)
		if ok {
			if _, err := regexp.Compile(c); err != nil {
				return Tuple{False, mkMkIf("error", mkApp("regexp:err", StrS, p))}, st, true
			}
			return Tuple{mkApp("regexp:MatchString", BoolS, mkApp("regexp.MustCompile", IntS, p), tm(1)), IfNil}, st, true
		}
		return nil, nil, false
	}
	rc := fn.Signature.Recv()
	if rc == nil || tname(rc.Type()) != "*regexp.Regexp" {
		return nil, nil, false
	}
	e.assume["regular expressions are functions of the pattern and the text"] = true
	re := tm(0)
	pat, known := "", false
	if re.op == OApp && re.name == "regexp.MustCompile" {
		pat, known = constStr(re.args[0])
	}
	var ts []*Term
	for i := range args {
		if _, ok := args[i].(*Clo); ok {
			return nil, nil, false
		}
		ts = append(ts, tm(i))
	}
	if !known && !(re.op == OApp && strings.HasPrefix(re.name, "regexp.MustCompile")) {
		e.nilCheck(st, re, pos)
	}
	if known && fn.Name() == "ReplaceAllString" {
		s, rep := ts[1], ts[2]
		if rp, ok := constStr(rep); ok {
			if c, ok := constStr(s); ok {
				return mkStr(regexp.MustCompile(pat).ReplaceAllString(c, rp)), st, true
			}
			lit := func(p string) bool { return p != "" && regexp.QuoteMeta(p) == p || p == "{" || p == "}" }
			if rp == "" && strings.HasSuffix(pat, "$") && lit(pat[:len(pat)-1]) {
				return mkApp("trimsuffix", StrS, s, mkStr(pat[:len(pat)-1])), st, true
			}
			if rp == "" && strings.HasPrefix(pat, "^") && lit(pat[1:]) {
				return mkApp("trimprefix", StrS, s, mkStr(pat[1:])), st, true
			}
		}
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil, nil, false
	}
	return e.extResults(fn.Signature, "regexp:"+fn.Name(), ts), st, true
}

// ---------- URLs

type urlVal struct {
	g, key, v *Term // v: a slice of strings
}

// urlValues flattens a url.Values built by Set/Add over an empty map, each entry under a guard.
func urlValues(m *Term) ([]urlVal, bool) {
	switch {
	case m.op == OApp && m.name == "map:empty":
		return nil, true
	case m.op == OApp && m.name == "map:put":
		vs, ok := urlValues(m.args[0])
		if !ok {
			return nil, false
		}
		if _, ok := constStr(m.args[1]); !ok {
			return nil, false
		}
		var out []urlVal
		for _, v := range vs {
			if v.key == m.args[1] {
				continue
			}
			out = append(out, v)
		}
		return append(out, urlVal{True, m.args[1], m.args[2]}), true
	case m.op == OIte:
		c := m.args[0]
		a, ok1 := urlValues(m.args[1])
		b, ok2 := urlValues(m.args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		by := map[*Term]*urlVal{}
		var order []*Term
		for _, v := range a {
			order = append(order, v.key)
			by[v.key] = &urlVal{mkAnd(c, v.g), v.key, v.v}
		}
		for _, v := range b {
			if x := by[v.key]; x != nil {
				x.g, x.v = mkIte(c, x.g, v.g), mkIte(c, x.v, v.v)
				if x.v == v.v {
					x.g = mkIte(c, under(c, x.g), under(mkNot(c), v.g))
				}
				continue
			}
			order = append(order, v.key)
			by[v.key] = &urlVal{mkAnd(mkNot(c), v.g), v.key, v.v}
		}
		var out []urlVal
		for _, k := range order {
			out = append(out, *by[k])
		}
		return out, true
	}
	return nil, false
}

func (e *Exec) modelURL(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, *State, bool) {
	tm := func(i int) *Term { return e.term(st, args[i]) }
	switch name {
	case "net/url.UserPassword", "net/url.User":
		var ts []*Term
		for i := range args {
			ts = append(ts, tm(i))
		}
		return mkApp(name, IntS, ts...), st, true
	case "net.JoinHostPort":
		return mkApp(name, StrS, tm(0), tm(1)), st, true
	case "(*net/url.URL).String":
		r := tm(0)
		e.nilCheck(st, r, pos)
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		e.assume["net/url.URL.String is a function of the URL's parts that can be read back"] = true
		return mkApp("url:string", StrS, e.objLoad(st, r, t)), st, true
	case "(net/url.Values).Set", "(net/url.Values).Add":
		r, k, v := tm(0), tm(1), tm(2)
		t := fn.Signature.Recv().Type()
		mt := t.Underlying().(*types.Map)
		m := e.mapLoad(st, r, t)
		nv := mkSl(False, mkUnit(v))
		if fn.Name() == "Add" {
			old, _ := e.mapGet(m, k, mt)
			nv = mkSl(False, mkConcat(SeqOf(StrS), mkSlSeq(old), mkUnit(v)))
		}
		nm := mkApp("map:put", OpqOf("map:"+tname(mt)), m, k, nv)
		if r.op == OInt && r.ival.Sign() < 0 {
			st.cells[r] = nm
			return nil, st, true
		}
		e.nilCheck(st, r, pos)
		kk := "map:" + tname(mt)
		st.heap[kk] = mkStore(st.heap[kk], r, nm)
		return nil, st, true
	case "(net/url.Values).Get":
		t := fn.Signature.Recv().Type()
		v, _ := e.mapGet(e.mapLoad(st, tm(0), t), tm(1), t.Underlying().(*types.Map))
		s := mkSlSeq(v)
		return mkIte(mkLe(mkLen(s), mkInt(0)), mkStr(""), mkNth(s, mkInt(0))), st, true
	case "(net/url.Values).Encode":
		t := fn.Signature.Recv().Type()
		m := e.mapLoad(st, tm(0), t)
		e.assume["net/url.Values.Encode is a function of the values, sorted by key"] = true
		vs, ok := urlValues(m)
		if !ok {
			return mkApp("url:encode", StrS, m), st, true
		}
		sort.SliceStable(vs, func(i, j int) bool { return vs[i].key.name < vs[j].key.name })
		var ts []*Term
		for _, v := range vs {
			if v.g == False {
				continue
			}
			ts = append(ts, v.g, v.key, mkIte(v.g, mkSlSeq(v.v), mkEmpty(SeqOf(StrS))))
		}
		return mkApp("url:encode", StrS, ts...), st, true
	}
	return nil, nil, false
}

func (e *Exec) modelLib(f *frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, *State, bool) {
	tm := func(i int) *Term { return e.term(st, args[i]) }
	if v, s, ok := e.modelBuf(f, st, name, fn, args, pos); ok {
		return v, s, ok
	}
	if v, s, ok := e.modelRegexp(f, st, name, fn, args, pos); ok {
		return v, s, ok
	}
	if v, s, ok := e.modelURL(f, st, name, fn, args, pos); ok {
		return v, s, ok
	}
	switch name {
	case "os.LookupEnv":
		e.assume["the environment does not change during a run"] = true
		return Tuple{mkIte(mkApp("env?", BoolS, tm(0)), mkApp("env", StrS, tm(0)), mkStr("")), mkApp("env?", BoolS, tm(0))}, st, true
	case "os.Getenv":
		e.assume["the environment does not change during a run"] = true
		return mkIte(mkApp("env?", BoolS, tm(0)), mkApp("env", StrS, tm(0)), mkStr("")), st, true
	case "github.com/jessevdk/go-flags.NewParser":
		d := tm(0)
		if d.op != OMkIf {
			e.unsup("option structure of unknown type")
		}
		pt, ok := e.P.typeByName[d.name].Underlying().(*types.Pointer)
		if !ok {
			e.unsup("option structure is not a pointer")
		}
		if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
			e.unsup("option structure is not a struct")
		}
		r := e.newRef()
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		e.cellT[r] = t
		st.cells[r] = e.extVal("flags:parser", t, []*Term{tm(1)})
		e.flagData[r] = d
		return r, st, true
	case "(*github.com/jessevdk/go-flags.Parser).ParseArgs", "(*github.com/jessevdk/go-flags.Parser).Parse":
		r := tm(0)
		d := e.flagData[r]
		if d == nil {
			e.unsup("option parser of unknown origin")
		}
		e.assume["go-flags stores into each field what its tag (short, long, default, env, ...) and the arguments determine"] = true
		args0 := mkApp("os:args", SeqOf(StrS))
		if len(args) > 1 {
			_, args0 = e.sliceContent(st, args[1])
		}
		t := e.P.typeByName[d.name].Underlying().(*types.Pointer).Elem()
		sct := t.Underlying().(*types.Struct)
		so := sortOf(t)
		fs := make([]*Term, sct.NumFields())
		for i := range fs {
			fs[i] = mkApp("flag:"+flagTag(sct.Tag(i)), so.Fields[i], args0)
		}
		e.objStore(st, d.args[0], t, mkMk(so, fs...))
		return e.extResults(fn.Signature, name, []*Term{args0}), st, true
	case "(*github.com/jessevdk/go-flags.Parser).WriteHelp":
		e.event(st, "flags:help", tm(1))
		return nil, st, true
	case "github.com/k0kubun/sqldef/sqlparser/dependency/hack.String":
		e.assume["hack.String gives the bytes as a string (unsafe conversion; the bytes are not changed afterwards)"] = true
		_, s := e.sliceContent(st, args[0])
		return s, st, true
	case "os.IsNotExist", "os.IsExist":
		return mkApp(name, BoolS, tm(0)), st, true
	case "github.com/go-sql-driver/mysql.NewConfig":
		r := e.newRef()
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		e.cellT[r] = t
		st.cells[r] = e.extVal("mysql:default", t, nil)
		return r, st, true
	case "(*github.com/go-sql-driver/mysql.Config).FormatDSN":
		r := tm(0)
		e.nilCheck(st, r, pos)
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		e.assume["mysql.Config.FormatDSN is a function of the configuration that can be read back"] = true
		return mkApp("mysql:dsn", StrS, e.objLoad(st, r, t)), st, true
	}
	return nil, nil, false
}

// flagTag is the part of an option's tag that decides its value.
func flagTag(tag string) string {
	r := ""
	t := reflect.StructTag(tag)
	for _, k := range []string{"short", "long", "default", "env", "env-delim", "optional", "optional-value", "required", "no-flag", "choice", "base", "hidden", "namespace", "group", "positional-args", "command", "key-value-delimiter", "ini-name", "unquote"} {
		if v, ok := t.Lookup(k); ok && k != "hidden" {
			r += " " + k + "=" + strconv.Quote(v)
		}
	}
	return r
}
