// Loading /repo with the contract overlay, and the contract table.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/k0kubun/sqldef"

type Contract struct {
	Name    string // contract function name
	Pkg     string
	Kind    string // spec, lemma
	Target  *ssa.Function
	TargetN string
	Fn      *ssa.Function
	Props   []string
	Reveal  []string
	Cases   []string
	Inline  []string
	Flags   map[string]bool
	Pos     string
	Broken  string // type error in the contract function
}

type Program struct {
	dir        string
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       []*ssa.Package
	cloTab     map[*Term]*Clo
	typeByName map[string]types.Type
	rtTypes    []types.Type
	contracts  []*Contract
	opaque     map[*ssa.Function]bool
	lemmas     map[*ssa.Function]*Contract
	summary    map[*ssa.Function]*Contract
	assigned   map[*ssa.Global]bool
	gids       map[*ssa.Global]int
	missing    []string
	overlay    map[string]string // virtual path -> real path
	bm         map[string][]byte // virtual path -> contents
	missingC   []*Contract       // contracts whose function no longer exists
	mu         sync.Mutex
	removed    []string          // contract functions that do not type-check against the code
	broken     map[string]string // contract function -> type error
	safe       map[*ssa.Function]*Contract
	objInv     map[string]*ssa.Function
	measures   []*ssa.Function
	effectsM   map[*ssa.Function]map[string]bool
}

func (p *Program) pos(t token.Pos) string {
	if !t.IsValid() {
		return ""
	}
	ps := p.fset.Position(t)
	fn := strings.TrimPrefix(ps.Filename, p.dir+"/")
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil { // synthetic wrappers
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
		return fn.Synthetic != ""
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}
func (p *Program) inlineOK(fn *ssa.Function) bool { return false }

func (p *Program) runtimeTypes() []types.Type {
	if p.rtTypes == nil {
		seen := map[string]bool{}
		for _, pk := range p.pkgs {
			if pk.Pkg.Path() == zzPath {
				continue
			}
			sc := pk.Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if strings.HasPrefix(n, "zz") {
					continue
				}
				t := tn.Type()
				if _, isI := t.Underlying().(*types.Interface); isI {
					continue
				}
				for _, x := range []types.Type{t, types.NewPointer(t)} {
					if !seen[tname(x)] {
						seen[tname(x)] = true
						p.rtTypes = append(p.rtTypes, x)
					}
				}
			}
		}
		// only types that are converted to an interface somewhere
		used := map[string]bool{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if !p.inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok {
						used[tname(mi.X.Type())] = true
					}
				}
			}
		}
		var keep []types.Type
		for _, t := range p.rtTypes {
			if used[tname(t)] {
				keep = append(keep, t)
			}
		}
		p.rtTypes = keep
	}
	return p.rtTypes
}

func (p *Program) namedType(pkg, name string) types.Type {
	q := p.prog.ImportedPackage(pkg)
	if q == nil {
		return nil
	}
	t := q.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Program) isConstGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return false
	}
	return !p.assigned[g]
}
func (p *Program) globalID(g *ssa.Global) int {
	if id, ok := p.gids[g]; ok {
		return id
	}
	p.gids[g] = len(p.gids) + 1
	return p.gids[g]
}

type directive struct {
	kind, target string
	props        []string
	reveal       []string
	inline       []string
	cases        []string // a case analysis: a path and its values
	flags        map[string]bool
}

func parseDirectives(doc *ast.CommentGroup) *directive {
	if doc == nil {
		return nil
	}
	d := &directive{flags: map[string]bool{}}
	any := false
	for _, c := range doc.List {
		t := c.Text
		if !strings.HasPrefix(t, "//@") && !strings.HasPrefix(t, "// @") {
			continue
		}
		any = true
		t = strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(t, "//@"), "// @"))
		fs := strings.Fields(t)
		if len(fs) == 0 {
			continue
		}
		switch fs[0] {
		case "spec", "safe":
			d.kind = fs[0]
			d.target = fs[1]
		case "invariant", "measure":
			d.kind = fs[0]
		case "lemma", "bounded":
			d.kind = fs[0]
			if len(fs) > 1 {
				d.target = fs[1]
			}
		case "opaque":
			if d.kind == "" {
				d.kind = "opaque"
			}
		case "prop":
			d.props = append(d.props, fs[1:]...)
		case "reveal":
			d.reveal = append(d.reveal, fs[1:]...)
		case "cases":
			d.cases = fs[1:]
		case "inline":
			d.inline = append(d.inline, fs[1:]...)
		default:
			d.flags[fs[0]] = true
			if len(fs) > 1 {
				d.flags[strings.Join(fs, " ")] = true
			}
		}
	}
	if !any {
		return nil
	}
	return d
}

func contractOverlay(repo, cdir string) (map[string]string, map[string][]byte, error) {
	m := map[string]string{}
	bm := map[string][]byte{}
	err := filepath.Walk(cdir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(cdir, path)
		dir, base := filepath.Split(rel)
		if strings.HasSuffix(base, "_test.go") {
			return nil
		}
		v := filepath.Join(repo, dir, "zz_verif_"+base)
		b, err := ioutil.ReadFile(path)
		if err != nil {
			return err
		}
		m[v] = path
		bm[v] = b
		return nil
	})
	return m, bm, err
}

func loadProgram(repo, cdir string, patterns []string) (*Program, error) {
	ov, bm, err := contractOverlay(repo, cdir)
	if err != nil {
		return nil, err
	}
	p := &Program{dir: repo, cloTab: map[*Term]*Clo{}, typeByName: map[string]types.Type{}, opaque: map[*ssa.Function]bool{}, lemmas: map[*ssa.Function]*Contract{},
		summary: map[*ssa.Function]*Contract{}, assigned: map[*ssa.Global]bool{}, gids: map[*ssa.Global]int{}, overlay: ov, broken: map[string]string{},
		safe: map[*ssa.Function]*Contract{}, objInv: map[string]*ssa.Function{}, effectsM: map[*ssa.Function]map[string]bool{}}
	var pk []*packages.Package
	for round := 0; ; round++ {
		p.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
			Dir:  repo, Overlay: bm, Fset: p.fset,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
		}
		if os.Getenv("VC_EXPORT") != "" {
			cfg.Mode = cfg.Mode&^packages.NeedDeps | packages.NeedExportFile
		}
		pk, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := false
		var other []string
		packages.Visit(pk, nil, func(q *packages.Package) {
			if !strings.HasPrefix(q.PkgPath, modPath) {
				return
			}
			for _, er := range q.Errors {
				fn, line := splitPos(er.Pos)
				if strings.Contains(filepath.Base(fn), "zz_verif_") {
					if blank(p, bm, fn, line, er.Msg) {
						bad = true
						continue
					}
				}
				other = append(other, er.Error())
			}
		})
		if len(other) > 0 && !bad {
			return nil, fmt.Errorf("type errors: %s", strings.Join(other, "; "))
		}
		if !bad {
			break
		}
		if round > 30 {
			return nil, fmt.Errorf("contracts do not type-check")
		}
	}
	p.bm = bm
	prog, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	p.prog = prog
	for _, s := range spkgs {
		if s != nil {
			p.pkgs = append(p.pkgs, s)
		}
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if !p.inRepo(fn) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if ok {
					if g, ok := rootGlobal(s.Addr); ok && !isInit {
						p.assigned[g] = true
					}
				}
				if mu, ok := ins.(*ssa.MapUpdate); ok && !isInit {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							p.assigned[g] = true
						}
					}
				}
				if isInit {
					continue
				}
				// address of a global escaping
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := ins.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if x.Val == g {
								p.assigned[g] = true
							}
						default:
							p.assigned[g] = true
						}
					}
				}
			}
		}
	}
	for i, q := range pk {
		sp := spkgs[i]
		if sp == nil {
			continue
		}
		for _, file := range q.Syntax {
			fname := p.fset.Position(file.Pos()).Filename
			if !strings.Contains(filepath.Base(fname), "zz_verif_") {
				continue
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				dir := parseDirectives(fd.Doc)
				if dir == nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					return nil, fmt.Errorf("contract %s not found in SSA", fd.Name.Name)
				}
				if dir.kind == "opaque" {
					p.opaque[fn] = true
					continue
				}
				if dir.flags["opaque"] {
					p.opaque[fn] = true
				}
				if dir.kind == "invariant" {
					p.objInv[tname(fn.Params[0].Type().Underlying().(*types.Pointer).Elem())] = fn
					continue
				}
				if dir.kind == "measure" {
					p.measures = append(p.measures, fn)
					continue
				}
				c := &Contract{Name: fd.Name.Name, Pkg: q.PkgPath, Kind: dir.kind, Fn: fn, Props: dir.props, Reveal: dir.reveal, Inline: dir.inline, Cases: dir.cases, Flags: dir.flags, Pos: p.pos(fd.Pos()), TargetN: dir.target}
				c.Broken = p.broken[fname+":"+fd.Name.Name]
				if dir.kind == "spec" || dir.kind == "safe" || dir.kind == "bounded" && dir.target != "" {
					t := p.findTarget(sp, dir.target)
					if t == nil {
						p.missing = append(p.missing, dir.target+" ("+c.Name+")")
						p.missingC = append(p.missingC, c)
						continue
					}
					c.Target = t
					if dir.kind == "safe" {
						if !sameParams(t, fn) {
							c.TargetN += " with the parameters of " + fn.Signature.String()
							p.missingC = append(p.missingC, c)
							continue
						}
						if c.Broken == "" {
							p.safe[t] = c
						}
						p.contracts = append(p.contracts, c)
						continue
					}
					if !sameSig(t, fn) {
						c.TargetN += " with the signature " + fn.Signature.String()
						p.missingC = append(p.missingC, c)
						continue
					}
					if dir.kind == "spec" && !dir.flags["nosummary"] && c.Broken == "" {
						p.summary[t] = c
					}
				} else if c.Kind == "" {
					continue
				} else if c.Kind == "lemma" && c.Broken == "" {
					p.lemmas[fn] = c
				}
				p.contracts = append(p.contracts, c)
			}
		}
	}
	sort.Slice(p.contracts, func(i, j int) bool { return p.contracts[i].Name < p.contracts[j].Name })
	for i := 1; i < len(p.contracts); i++ {
		if p.contracts[i].Name == p.contracts[i-1].Name {
			return nil, fmt.Errorf("two contracts named %s", p.contracts[i].Name)
		}
	}
	return p, nil
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			// element store through a slice global
			if g, ok := x.X.(*ssa.Global); ok {
				return g, true
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

func sameParams(t, c *ssa.Function) bool {
	if len(t.Params) != len(c.Params) {
		return false
	}
	for i := range t.Params {
		if !types.Identical(t.Params[i].Type(), c.Params[i].Type()) {
			return false
		}
	}
	return true
}

func sameSig(t, c *ssa.Function) bool {
	if !sameParams(t, c) {
		return false
	}
	a, b := t.Signature.Results(), c.Signature.Results()
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}

func (p *Program) findTarget(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		// other package: path.Func
		j := strings.Index(name[i:], ".") + i
		path, rest := name[:j], name[j+1:]
		for _, q := range p.pkgs {
			if q.Pkg.Path() == modPath+"/"+path {
				return p.findTarget(q, rest)
			}
		}
		return nil
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		tn, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		ty := sp.Type(tn)
		if ty == nil {
			return nil
		}
		var t types.Type = ty.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m)
		if sel == nil {
			return nil
		}
		return p.prog.MethodValue(sel)
	}
	if i := strings.Index(name, "."); i > 0 {
		if sp.Type(name[:i]) == nil {
			return nil
		}
		// a method declared on the value is reached through its own method, not through a pointer wrapper
		if sel := p.prog.MethodSets.MethodSet(sp.Type(name[:i]).Type()).Lookup(sp.Pkg, name[i+1:]); sel != nil {
			return p.prog.MethodValue(sel)
		}
		return p.findTarget(sp, "(*"+name[:i]+")"+name[i:])
	}
	return sp.Func(name)
}

func splitPos(s string) (string, int) {
	ps := strings.Split(s, ":")
	if len(ps) < 2 {
		return s, 0
	}
	n := 0
	fmt.Sscanf(ps[1], "%d", &n)
	return ps[0], n
}

// blank replaces the body of the contract function around the given line, so that the others still type-check.
func blank(p *Program, bm map[string][]byte, file string, line int, msg string) bool {
	if os.Getenv("VC_BLANK") != "" {
		fmt.Fprintln(os.Stderr, "blank", file, line, msg)
	}
	src, ok := bm[file]
	if !ok {
		return false
	}
	fs := token.NewFileSet()
	f, err := parseFile(fs, file, src)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		a, b := fs.Position(fd.Pos()).Line, fs.Position(fd.End()).Line
		if line < a || line > b {
			continue
		}
		key := file + ":" + fd.Name.Name
		if _, done := p.broken[key]; done {
			// the signature itself does not type-check: take the declaration out
			o0 := fd.Pos()
			if fd.Doc != nil {
				o0 = fd.Doc.Pos()
			}
			o1, o2 := fs.Position(o0).Offset, fs.Position(fd.End()).Offset
			out := append([]byte{}, src[:o1]...)
			out = append(out, strings.Repeat("\n", strings.Count(string(src[o1:o2]), "\n"))...)
			out = append(out, src[o2:]...)
			bm[file] = out
			p.removed = append(p.removed, fd.Name.Name+": "+msg)
			return true
		}
		p.broken[key] = msg
		o1, o2 := fs.Position(fd.Body.Lbrace).Offset, fs.Position(fd.Body.Rbrace).Offset
		nl := strings.Count(string(src[o1:o2]), "\n")
		body := "{ panic(\"broken contract\")" + strings.Repeat("\n", nl)
		out := append([]byte{}, src[:o1]...)
		out = append(out, body...)
		out = append(out, src[o2:]...)
		bm[file] = out
		return true
	}
	return false
}

func parseFile(fs *token.FileSet, name string, src []byte) (*ast.File, error) {
	return parser.ParseFile(fs, name, src, parser.ParseComments)
}
