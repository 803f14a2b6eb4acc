// Native execution of contracts: an in-package test is generated, compiled with an overlay and run.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type NativeResult struct {
	Case    string
	Kind    string
	Tried   int
	Ran     int
	Fail    bool
	What    string
	Args    string
	Got     string
	Want    string
	Seed    int64
	Iter    int64
	Seconds float64
	Note    string
	Pkg     string
}

// constants mentioned by the target and what it calls (two levels)
func (p *Program) constPool(fns []*ssa.Function) ([]string, []int64) {
	ss, is := map[string]bool{}, map[int64]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 3 || len(seen) > 60 || !p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						switch c.Value.Kind() {
						case constant.String:
							s := constant.StringVal(c.Value)
							if len(s) < 60 {
								ss[s] = true
							}
						case constant.Int:
							if i, ok := constant.Int64Val(c.Value); ok && i > -1000000 && i < 1<<40 {
								is[i] = true
							}
						}
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g, d+1)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a, d)
		}
	}
	for _, f := range fns {
		visit(f, 0)
	}
	var so []string
	for s := range ss {
		if s != "" {
			so = append(so, s)
		}
	}
	sort.Strings(so)
	if len(so) > 300 {
		so = so[:300]
	}
	var io []int64
	for i := range is {
		io = append(io, i)
	}
	sort.Slice(io, func(a, b int) bool { return io[a] < io[b] })
	if len(io) > 60 {
		io = io[:60]
	}
	return so, io
}

func (p *Program) testFile(pk *types.Package, cs []*Contract) string {
	imports := map[string]string{}
	qual := func(o *types.Package) string {
		if o == pk {
			return ""
		}
		n := "x" + strconv.Itoa(len(o.Path())) + o.Name()
		imports[o.Path()] = n
		return n
	}
	visible := func(t types.Type) bool {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg() == pk || n.Obj().Exported() && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) && n.Obj().Parent() == n.Obj().Pkg().Scope()
	}
	var b strings.Builder
	var body strings.Builder
	body.WriteString("func TestZZVerif(t *testing.T) {\n\tcases := []zznat.Case{\n")
	for _, c := range cs {
		tgt := "nil"
		fns := []*ssa.Function{c.Fn}
		if c.Target != nil {
			fns = append(fns, c.Target)
			tgt = c.TargetN
			if r := c.Target.Signature.Recv(); r != nil {
				tgt = "(" + types.TypeString(r.Type(), func(*types.Package) string { return "" }) + ")." + c.Target.Name()
			}
		}
		ss, is := p.constPool(fns)
		var seeds []string
		for f := range c.Flags {
			if strings.HasPrefix(f, "seed ") {
				seeds = append(seeds, f[5:])
			}
		}
		sort.Strings(seeds)
		kind := c.Kind
		if c.Kind == "safe" {
			kind, tgt = "lemma", "nil"
		} else if c.Target != nil {
			kind = "spec"
		}
		fmt.Fprintf(&body, "\t\t{Name: %q, Kind: %q, Spec: %s, Target: %s, Strs: %#v, Ints: %#v, Seeds: %#v, NoState: %v},\n", c.Name, kind, c.Name, tgt, ss, is, seeds, c.Flags["nostate"])
	}
	body.WriteString("\t}\n\tinfo := &zznat.Info{Module: " + strconv.Quote(modPath) + ", Ifaces: map[reflect.Type][]reflect.Type{}, Enums: map[reflect.Type][]int64{}}\n")
	if rel := strings.TrimPrefix(pk.Path(), modPath); rel == "" || strings.HasPrefix(rel, "/adapter") {
		body.WriteString("\tinfo.IO = true\n")
	}
	// interfaces and enumerations of this package and the repository packages it imports
	pkgs := []*types.Package{pk}
	for _, im := range pk.Imports() {
		if strings.HasPrefix(im.Path(), modPath) && !strings.HasSuffix(im.Path(), "zzverif") {
			pkgs = append(pkgs, im)
		}
	}
	rts := p.runtimeTypes()
	inPkgs := func(t types.Type) bool {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		for _, q := range pkgs {
			if ok && n.Obj().Pkg() == q {
				return true
			}
		}
		return false
	}
	for _, q := range pkgs {
		sc := q.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if tn, ok := o.(*types.TypeName); ok && !tn.IsAlias() && visible(tn.Type()) {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					var im []string
					for _, rt := range rts {
						if !visible(rt) || !inPkgs(rt) || types.IsInterface(rt) || !types.Implements(rt, it) {
							continue
						}
						im = append(im, "reflect.TypeOf((*"+types.TypeString(rt, qual)+")(nil)).Elem()")
					}
					if len(im) > 0 {
						fmt.Fprintf(&body, "\tinfo.Ifaces[reflect.TypeOf((*%s)(nil)).Elem()] = []reflect.Type{%s}\n", types.TypeString(tn.Type(), qual), strings.Join(im, ", "))
					}
				}
			}
		}
		enums := map[string][]string{}
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok || !visible(c.Type()) {
				continue
			}
			if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			if i, ok := constant.Int64Val(c.Val()); ok {
				k := types.TypeString(c.Type(), qual)
				enums[k] = append(enums[k], strconv.FormatInt(i, 10))
			}
		}
		var ks []string
		for k := range enums {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&body, "\tinfo.Enums[reflect.TypeOf((*%s)(nil)).Elem()] = []int64{%s}\n", k, strings.Join(enums[k], ", "))
		}
	}
	body.WriteString("\tzznat.Main(cases, info)\n}\n")
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"reflect\"\n\t\"testing\"\n\tzznat %q\n", pk.Name(), modPath+"/zznat")
	var ps []string
	for p := range imports {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, q := range ps {
		fmt.Fprintf(&b, "\t%s %q\n", imports[q], q)
	}
	b.WriteString(")\n\n")
	b.WriteString(body.String())
	return b.String()
}

type nativeOpts struct {
	seed, ms, iters int64
	work            string
	nativeDir       string
}

// runNative executes the contracts natively; nil error with results, or an error text when the test cannot be built.
func (p *Program) runNative(cs []*Contract, o nativeOpts) ([]NativeResult, map[string]string) {
	byPkg := map[*ssa.Package][]*Contract{}
	var order []*ssa.Package
	for _, c := range cs {
		if c.Broken != "" || c.Fn == nil || c.Flags["nonative"] {
			continue
		}
		pk := c.Fn.Pkg
		if byPkg[pk] == nil {
			order = append(order, pk)
		}
		byPkg[pk] = append(byPkg[pk], c)
	}
	errs := map[string]string{}
	var mu sync.Mutex
	var out []NativeResult
	ov := map[string]string{}
	for v, b := range p.bm {
		f := filepath.Join(o.work, "ov", strings.Replace(strings.TrimPrefix(v, p.dir+"/"), "/", "__", -1))
		os.MkdirAll(filepath.Dir(f), 0755)
		ioutil.WriteFile(f, b, 0644)
		ov[v] = f
	}
	nf, _ := filepath.Glob(filepath.Join(o.nativeDir, "*.go"))
	for _, f := range nf {
		ov[filepath.Join(p.dir, "zznat", filepath.Base(f))] = f
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, pk := range order {
		wg.Add(1)
		go func(pk *ssa.Package) {
			defer wg.Done()
			mu.Lock()
			src := p.testFile(pk.Pkg, byPkg[pk])
			rel := strings.TrimPrefix(strings.TrimPrefix(pk.Pkg.Path(), modPath), "/")
			key := strings.Replace(rel, "/", "_", -1)
			tf := filepath.Join(o.work, "test_"+key+".go")
			ioutil.WriteFile(tf, []byte(src), 0644)
			my := map[string]string{}
			for k, v := range ov {
				my[k] = v
			}
			my[filepath.Join(p.dir, rel, "zz_verif_run_test.go")] = tf
			// the package's own tests stay out of the run
			own, _ := filepath.Glob(filepath.Join(p.dir, rel, "*_test.go"))
			for _, f := range own {
				my[f] = ""
			}
			if rel == "" || strings.HasPrefix(rel, "cmd/") {
				// the end of the process becomes a panic that the harness catches
				fs, _ := filepath.Glob(filepath.Join(p.dir, rel, "*.go"))
				for k := range p.bm {
					if filepath.Dir(k) == filepath.Join(p.dir, rel) {
						fs = append(fs, k)
					}
				}
				for _, f := range fs {
					from := f
					if m, ok := my[f]; ok {
						from = m
					}
					if from == "" || from == tf || strings.HasSuffix(f, "_test.go") {
						continue
					}
					if b := catchExit(from); b != nil {
						to := filepath.Join(o.work, "exit_"+key+"_"+filepath.Base(f))
						ioutil.WriteFile(to, b, 0644)
						my[f] = to
					}
				}
			}
			ovf := filepath.Join(o.work, "overlay_"+key+".json")
			js, _ := json.Marshal(map[string]interface{}{"Replace": my})
			ioutil.WriteFile(ovf, js, 0644)
			mu.Unlock()
			sem <- true
			defer func() { <-sem }()
			bin := filepath.Join(o.work, "bin_"+key)
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+rel)
			cmd.Dir = p.dir
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
			var eb bytes.Buffer
			cmd.Stderr, cmd.Stdout = &eb, &eb
			if err := cmd.Run(); err != nil {
				mu.Lock()
				errs[pk.Pkg.Path()] = "native build failed: " + err.Error() + "\n" + eb.String()
				mu.Unlock()
				return
			}
			// shard the cases over a few processes
			names := make([][]string, 4)
			for i, c := range byPkg[pk] {
				names[i%4] = append(names[i%4], c.Name)
			}
			var w2 sync.WaitGroup
			for sh, ns := range names {
				if len(ns) == 0 {
					continue
				}
				w2.Add(1)
				go func(sh int, ns []string) {
					defer w2.Done()
					rs := p.runShard(bin, o, ns, fmt.Sprintf("%s_%d", key, sh))
					mu.Lock()
					for _, r := range rs {
						r.Pkg = pk.Pkg.Path()
						out = append(out, r)
					}
					mu.Unlock()
				}(sh, ns)
			}
			w2.Wait()
		}(pk)
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Case < out[j].Case })
	return out, errs
}

func (p *Program) runShard(bin string, o nativeOpts, names []string, key string) []NativeResult {
	var out []NativeResult
	left := names
	for len(left) > 0 {
		of := filepath.Join(o.work, "res_"+key)
		os.Remove(of)
		dir := filepath.Join(o.work, "cwd_"+key)
		os.MkdirAll(dir, 0755)
		cmd := exec.Command(bin, "-test.run", "^TestZZVerif$", "-test.timeout", "800s")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "ZZ_OUT="+of, fmt.Sprintf("ZZ_SEED=%d", o.seed), fmt.Sprintf("ZZ_MS=%d", o.ms), fmt.Sprintf("ZZ_ITERS=%d", o.iters), "ZZ_ONLY="+strings.Join(left, ","), "GOMEMLIMIT=2GiB")
		var eb bytes.Buffer
		cmd.Stderr, cmd.Stdout = &eb, &eb
		t0 := time.Now()
		err := cmd.Run()
		b, _ := ioutil.ReadFile(of)
		done := map[string]bool{}
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" {
				continue
			}
			var r NativeResult
			if json.Unmarshal([]byte(l), &r) == nil {
				out = append(out, r)
				done[r.Case] = true
			}
		}
		var rest []string
		for _, n := range left {
			if !done[n] {
				rest = append(rest, n)
			}
		}
		if len(rest) == 0 {
			break
		}
		if len(rest) == len(left) && err == nil {
			// nothing more will come
			for _, n := range rest {
				out = append(out, NativeResult{Case: n, Note: "not executed"})
			}
			break
		}
		if err != nil {
			// the process died in the first case without a result
			tail := eb.String()
			if len(tail) > 3000 {
				tail = tail[:3000]
			}
			out = append(out, NativeResult{Case: rest[0], Fail: true, What: "the process died: " + firstLine(tail), Got: tail, Args: "(see the output)", Seconds: time.Since(t0).Seconds()})
			rest = rest[1:]
		}
		left = rest
	}
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// catchExit replaces the calls in a file that end the process; nil if there are none.
func catchExit(file string) []byte {
	src, err := ioutil.ReadFile(file)
	if err != nil {
		return nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	imported := map[string]bool{}
	for _, im := range f.Imports {
		if im.Name == nil {
			imported[strings.Trim(im.Path.Value, "\"")] = true
		}
	}
	type edit struct{ from, to int }
	var edits []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok || !imported[x.Name] {
			return true
		}
		if x.Name == "os" && s.Sel.Name == "Exit" || x.Name == "log" && strings.HasPrefix(s.Sel.Name, "Fatal") {
			edits = append(edits, edit{fset.Position(x.Pos()).Offset, fset.Position(x.End()).Offset})
			used[x.Name+"."+s.Sel.Name] = true
		}
		return true
	})
	if len(edits) == 0 {
		return nil
	}
	var b bytes.Buffer
	at := fset.Position(f.Name.End()).Offset
	b.Write(src[:at])
	b.WriteString("; import zzexit " + strconv.Quote(modPath+"/zzverif"))
	for _, e := range edits {
		b.Write(src[at:e.from])
		b.WriteString("zzexit")
		at = e.to
	}
	b.Write(src[at:])
	for u := range used {
		b.WriteString("\nvar _ = " + u + "\n")
	}
	return b.Bytes()
}
