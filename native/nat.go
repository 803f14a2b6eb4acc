// Package zznat executes contracts natively on generated inputs (the replay half of the verifier).
package zznat

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	zz "github.com/k0kubun/sqldef/zzverif"
)

type Case struct {
	Name   string
	Kind   string // spec, lemma, bounded
	Spec   interface{}
	Target interface{}
	Strs   []string
	Ints   []int64
	Seeds  []string // texts that the contract suggests

	NoState bool // the state of the arguments is not compared
}

type Info struct {
	Ifaces map[reflect.Type][]reflect.Type
	Enums  map[reflect.Type][]int64
	Module string
	IO     bool // the functions act on a world outside
}

type Result struct {
	Case    string
	Kind    string
	Tried   int
	Ran     int
	Fail    bool
	What    string
	Args    string
	Got     string
	Want    string
	Seed    int64
	Iter    int64
	Seconds float64
	Note    string
}

type gen struct {
	r       *rand.Rand
	info    *Info
	strs    []string
	seeds   []string
	ints    []int64
	tape    []uint32
	replay  []uint32
	rp      int
	inRep   bool
	mutRate float64
	hist    map[reflect.Type][][]uint32
	depth   int
	nodes   int
	seed    int64
	world   *World
}

func (g *gen) word() uint32 {
	var w uint32
	if g.inRep && g.rp < len(g.replay) {
		w = g.replay[g.rp]
		g.rp++
		if g.r.Float64() < g.mutRate {
			w = g.r.Uint32()
		}
	} else {
		w = g.r.Uint32()
	}
	g.tape = append(g.tape, w)
	return w
}
func (g *gen) n(n int) int {
	if n <= 1 {
		g.word()
		return 0
	}
	return int(g.word() % uint32(n))
}
func (g *gen) p(pct int) bool { return g.n(100) < pct }

var basePool = []string{"a", "b", "c", "id", "name", "users"}
var oddPool = []string{"a`b", `a"b`, "a]b", "a[b", "it's", "a b", "public.users", "dbo.users", "a.b", "a.b.c", "A", "B", "Users", "é", "0", "1", "12", "-1", "1.5", "(a)", "((a) and (b))", "NULL", "integer", "int", "varchar", "asc", "desc", "PRIMARY", "x\\y", "%s", "a,b", "?", "\n", " ", "true", "false", "on"}

// chunk is a small piece of one of the texts that the functions mention.
func (g *gen) chunk() string {
	if len(g.strs) == 0 || g.p(15) {
		return oddPool[g.n(len(oddPool))]
	}
	s := g.strs[g.n(len(g.strs))]
	if len(s) < 2 || g.p(40) {
		return s
	}
	i := g.n(len(s))
	n := 1 + g.n(3)
	if i+n > len(s) {
		n = len(s) - i
	}
	return s[i : i+n]
}

func (g *gen) str() string {
	if len(g.seeds) > 0 && !g.info.IO && g.p(70) {
		return g.seeds[g.n(len(g.seeds))]
	}
	if g.p(15) {
		s := ""
		for n := g.n(6); n >= 0; n-- {
			s += g.chunk()
		}
		return s
	}
	switch k := g.n(20); {
	case k < 9:
		return basePool[g.n(3)]
	case k < 11:
		return ""
	case k < 15 && len(g.strs) > 0:
		return g.strs[g.n(len(g.strs))]
	case k < 16:
		return basePool[g.n(len(basePool))]
	case k < 18:
		return oddPool[g.n(len(oddPool))]
	case k < 19 && len(g.strs) > 0:
		return g.strs[g.n(len(g.strs))] + oddPool[g.n(len(oddPool))]
	}
	if len(g.strs) > 0 && g.p(50) {
		return oddPool[g.n(len(oddPool))] + g.strs[g.n(len(g.strs))]
	}
	return basePool[g.n(3)] + oddPool[g.n(len(oddPool))]
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *gen) fill(v reflect.Value) {
	t := v.Type()
	g.nodes++
	composite := t.Kind() == reflect.Struct && t.NumField() > 1
	if composite && !g.inRep {
		if h := g.hist[t]; len(h) > 0 && g.r.Float64() < 0.6 {
			g.inRep, g.replay, g.rp = true, h[g.r.Intn(len(h))], 0
			g.mutRate = []float64{0, 0, 0.02, 0.05, 0.15}[g.r.Intn(5)]
			start := len(g.tape)
			g.fill1(v, t)
			g.inRep = false
			g.hist[t] = append(g.hist[t], append([]uint32{}, g.tape[start:]...))
			return
		}
		start := len(g.tape)
		g.fill1(v, t)
		g.hist[t] = append(g.hist[t], append([]uint32{}, g.tape[start:]...))
		return
	}
	g.fill1(v, t)
}

func (g *gen) fill1(v reflect.Value, t reflect.Type) {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth > 14 || g.nodes > 4000 {
		return
	}
	if es := g.info.Enums[t]; len(es) > 0 && t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64 {
		x := es[g.n(len(es))]
		if t.Kind() <= reflect.Int64 {
			v.SetInt(x)
		} else {
			v.SetUint(uint64(x))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.p(35))
	case reflect.String:
		if es := g.info.Enums[t]; len(es) > 0 {
			v.SetString(g.strs[int(es[g.n(len(es))])])
			return
		}
		v.SetString(g.str())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		pool := []int64{0, 1, 2, 3, -1, 10, 255, 6, 7}
		k := g.n(len(pool) + len(g.ints))
		if k < len(pool) {
			v.SetInt(pool[k])
		} else {
			v.SetInt(g.ints[k-len(pool)])
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		pool := []uint64{0, 1, 2, 3, 10, 255, 'a', '\'', '\\', '"', '`', 'Z', '\n', 0x1a}
		k := g.n(len(pool) + len(g.ints))
		if k < len(pool) {
			v.SetUint(pool[k])
		} else {
			v.SetUint(uint64(g.ints[k-len(pool)]))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, 0.5, -1.5, 1e10, 3.14159265, 0.1, 100, 1e-7}[g.n(9)])
	case reflect.Ptr:
		if t == dbT {
			v.Set(reflect.ValueOf(g.theWorld().DB()))
			return
		}
		if t == bufferT {
			v.Set(reflect.ValueOf(bytes.NewBufferString(g.str())))
			return
		}
		if t.Elem().Kind() == reflect.Struct && t.Elem().PkgPath() != "" && !strings.HasPrefix(t.Elem().PkgPath(), g.info.Module) {
			return
		}
		nilp := 25
		if g.depth <= 1 {
			nilp = 4
		}
		if g.depth > 8 {
			nilp = 80
		}
		if g.p(nilp) {
			return
		}
		x := reflect.New(t.Elem())
		g.fill(x.Elem())
		v.Set(x)
	case reflect.Slice:
		if g.p(8) {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.str()))
			return
		}
		n := []int{0, 1, 1, 2, 2, 3}[g.n(6)]
		if g.depth > 7 {
			n = g.n(2)
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			g.fill(settable(v.Index(i)))
		}
	case reflect.Map:
		if g.p(15) {
			return
		}
		m := reflect.MakeMap(t)
		for i, n := 0, g.n(3); i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			g.fill(k)
			g.fill(e)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		if t.PkgPath() != "" && !strings.HasPrefix(t.PkgPath(), g.info.Module) {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			g.fill(settable(v.Field(i)))
		}
	case reflect.Interface:
		im := g.info.Ifaces[t]
		if len(im) == 0 && t.NumMethod() > 1 && worldT.Implements(t) {
			v.Set(reflect.ValueOf(g.theWorld()))
			return
		}
		if len(im) == 0 && t.NumMethod() > 0 && bufferT.Implements(t) {
			v.Set(reflect.ValueOf(bytes.NewBufferString(g.str())))
			return
		}
		if len(im) == 0 || g.p(8) || g.depth > 9 && g.p(70) {
			return
		}
		c := im[g.n(len(im))]
		var x reflect.Value
		if c.Kind() == reflect.Ptr {
			x = reflect.New(c.Elem())
			g.fill(x.Elem())
		} else {
			x = reflect.New(c).Elem()
			g.fill(x)
		}
		v.Set(x)
	}
}

func makeArgs(c *Case, info *Info, ft reflect.Type, seed int64) []reflect.Value {
	as, w := makeArgs2(c, info, ft, seed)
	if w != nil {
		w.end()
	}
	return as
}

func makeArgs2(c *Case, info *Info, ft reflect.Type, seed int64) ([]reflect.Value, *World) {
	g := &gen{r: rand.New(rand.NewSource(seed)), info: info, seed: seed, strs: c.Strs, seeds: c.Seeds, ints: c.Ints, hist: map[reflect.Type][][]uint32{}}
	var as []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		v := reflect.New(ft.In(i)).Elem()
		// arguments of one type are often near copies of each other
		g.fill(v)
		as = append(as, v)
	}
	if info.IO {
		g.theWorld()
	}
	return as, g.world
}

type outcome struct {
	skip   bool
	panicv interface{}
	stack  string
	exit   string
	res    []reflect.Value
	log    []string
}

var null *os.File

func call(f reflect.Value, args []reflect.Value, w *World) (o outcome) {
	if w == nil {
		if null == nil {
			null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		}
		if null != nil {
			old := os.Stdout
			os.Stdout = null
			defer func() { os.Stdout = old }()
		}
	}
	if w != nil {
		defer func() {
			w.end()
			o.log = w.log
			if o.exit != "" {
				o.log = append(append([]string{}, w.log...), o.exit)
			}
			for _, r := range o.res {
				if r.Type() == errT && !r.IsNil() {
					pending = append(pending, complaint{lastQuery, r.Interface().(error)})
				}
			}
		}()
		if capture == nil {
			if f, err := os.Create("zzout"); err == nil {
				capture = f
			}
		}
		if capture != nil {
			capture.Truncate(0)
			capture.Seek(0, 0)
			old := os.Stdout
			os.Stdout = capture
			defer func() { os.Stdout = old }()
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(zz.Skip); ok {
				o.skip = true
				return
			}
			if x, ok := r.(zz.Exited); ok {
				o.exit = fmt.Sprint("the process ends with code ", x.Code)
				return
			}
			o.panicv = r
			o.stack = string(debug.Stack())
		}
	}()
	o.res = f.Call(args)
	return
}

var bufferT = reflect.TypeOf((*bytes.Buffer)(nil))

// content is what a buffer holds.
func content(v reflect.Value) string {
	return (*bytes.Buffer)(v.UnsafePointer()).String()
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

// eq compares values structurally; nil and empty slices and maps are the same, and errors are compared by presence.
func eq(a, b reflect.Value, d int, seen map[[2]uintptr]bool) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if d > 60 {
		return true
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type() == dbT || a.Type() == worldT {
			return true
		}
		if a.Type() == bufferT {
			return content(a) == content(b)
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if seen[k] {
			return true
		}
		seen[k] = true
		return eq(a.Elem(), b.Elem(), d+1, seen)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type() == errT {
			return true
		}
		return eq(a.Elem(), b.Elem(), d+1, seen)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), d+1, seen) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !eq(a.MapIndex(k), b.MapIndex(k), d+1, seen) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i), d+1, seen) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return true
}

// reach compares what the callee could change for its caller: objects behind pointers.
func reach(a, b reflect.Value, d int, seen map[[2]uintptr]bool) bool {
	if d > 6 {
		return true
	}
	switch a.Kind() {
	case reflect.Ptr:
		return eq(a, b, d, seen)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return true
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return reach(a.Elem(), b.Elem(), d+1, seen)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !reach(a.Field(i), b.Field(i), d+1, seen) {
				return false
			}
		}
	}
	return true
}

func dump(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 12 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return fmt.Sprint(v)
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if v.Type() == bufferT {
			return fmt.Sprintf("a buffer that holds %q", content(v))
		}
		if v.Type() == dbT {
			return "a database"
		}
		if v.Type() == worldT {
			return fmt.Sprintf("a database (world %d)", (*World)(v.UnsafePointer()).seed)
		}
		return "&" + dump(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Type() == errT && v.CanInterface() {
			return fmt.Sprintf("error(%q)", v.Interface().(error).Error())
		}
		return dump(v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("[]byte(%q)", string(bytesOf(v)))
		}
		var ps []string
		for i := 0; i < v.Len(); i++ {
			ps = append(ps, dump(v.Index(i), d+1))
		}
		return "[" + strings.Join(ps, ", ") + "]"
	case reflect.Map:
		var ps []string
		for _, k := range v.MapKeys() {
			ps = append(ps, dump(k, d+1)+": "+dump(v.MapIndex(k), d+1))
		}
		sort.Strings(ps)
		return "map[" + strings.Join(ps, ", ") + "]"
	case reflect.Struct:
		var ps []string
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if isZero(f) {
				continue
			}
			ps = append(ps, v.Type().Field(i).Name+": "+dump(f, d+1))
		}
		return v.Type().Name() + "{" + strings.Join(ps, ", ") + "}"
	}
	return v.Type().String()
}

func bytesOf(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

func isZero(v reflect.Value) bool { return v.IsZero() }

func dumpAll(vs []reflect.Value) string {
	var ps []string
	for _, v := range vs {
		ps = append(ps, dump(v, 0))
	}
	s := strings.Join(ps, "\n    ")
	if len(s) > 6000 {
		s = s[:6000] + "…"
	}
	return s
}

func mutated(before, after []reflect.Value) bool {
	for i := range before {
		if !reach(before[i], after[i], 0, map[[2]uintptr]bool{}) {
			return true
		}
	}
	return false
}

func runCase(c *Case, info *Info, seed int64, budget time.Duration, maxIter int64, emit func(Result)) {
	res := Result{Case: c.Name, Kind: c.Kind}
	t0 := time.Now()
	sf := reflect.ValueOf(c.Spec)
	ft := sf.Type()
	if len(c.Seeds) > 0 {
		// the names that are most often made up are files
		for i, n := range basePool[:3] {
			t := ""
			for j := 0; j < i; j++ {
				t += c.Seeds[int(seed+int64(i*j))%len(c.Seeds)] + ";\n"
			}
			os.WriteFile(n, []byte(t), 0644)
		}
	}
	best := -1
	var fails int
	iters := maxIter
	if ft.NumIn() == 0 {
		iters = 1
	}
	for i := int64(0); i < iters; i++ {
		if i&15 == 0 && time.Since(t0) > budget && i > 0 {
			break
		}
		s := seed*1000003 + i*7919 + int64(len(c.Name))
		cur.set(c.Name, s)
		res.Tried++
		learnAll()
		for _, n := range []string{"MYSQL_PWD", "PGPASSWORD", "MSSQL_PWD"} {
			// what the commands read from their surroundings
			switch i % 5 {
			case 0:
				os.Setenv(n, "from the environment")
			case 1:
				os.Setenv(n, "")
			default:
				os.Unsetenv(n)
			}
		}
		a, aw := makeArgs2(c, info, ft, s)
		var what, got, want string
		if c.Kind != "spec" {
			zz.Failed = nil
			zz.Seed = s
			o := call(sf, a, aw)
			if o.skip {
				continue
			}
			res.Ran++
			if o.panicv != nil {
				what = fmt.Sprintf("panic: %v", o.panicv)
				got = firstFrames(o.stack)
			} else if len(zz.Failed) > 0 {
				what = "postcondition does not hold: " + strings.Join(zz.Failed, "; ")
				got = zz.Detail
			} else {
				continue
			}
		} else {
			so := call(sf, a, aw)
			if so.skip || so.panicv != nil {
				continue
			}
			res.Ran++
			b, bw := makeArgs2(c, info, ft, s)
			to := call(reflect.ValueOf(c.Target), b, bw)
			if to.panicv != nil {
				what = fmt.Sprintf("panic: %v", to.panicv)
				got = firstFrames(to.stack)
				want = dumpAll(so.res)
			} else {
				n := len(so.res)
				bothErr := n > 1 && so.exit == "" && to.exit == "" && ft.Out(n-1) == errT && !so.res[n-1].IsNil() && !to.res[n-1].IsNil()
				same := true
				if so.exit != to.exit {
					what, same = "the function ends the process and the contract does not, or the other way round", false
				}
				for j := 0; j < n && so.exit == "" && to.exit == ""; j++ {
					if bothErr && j < n-1 {
						continue
					}
					if !eq(so.res[j], to.res[j], 0, map[[2]uintptr]bool{}) {
						same = false
						what = fmt.Sprintf("result %d differs from the contract", j+1)
					}
				}
				if same && !bothErr && !c.NoState && mutated(a, b) {
					same = false
					what = "the objects passed in are left in a different state than the contract says"
					so.res, to.res = a, b
				}
				if same && aw != nil && strings.Join(so.log, "\n") != strings.Join(to.log, "\n") {
					got, want = strings.Join(to.log, "\n    "), strings.Join(so.log, "\n    ")
					what = "the effects on the world outside are different from the contract's"
				} else if same {
					continue
				} else {
					got, want = dumpAll(to.res), dumpAll(so.res)
					if aw != nil {
						got += "\n    after\n    " + strings.Join(to.log, "\n    ")
						want += "\n    after\n    " + strings.Join(so.log, "\n    ")
					}
				}
			}
		}
		fails++
		args := dumpAll(makeArgs(c, info, ft, s))
		if best < 0 || len(args) < best {
			best = len(args)
			res.Fail, res.What, res.Args, res.Got, res.Want, res.Seed, res.Iter = true, what, args, got, want, s, i
		}
		if fails > 40 {
			break
		}
	}
	cur.set("", 0)
	res.Seconds = time.Since(t0).Seconds()
	emit(res)
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, "github.com/k0kubun/sqldef") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

type current struct {
	ch chan struct{}
	n  string
	s  int64
	t  time.Time
	mu chan bool
}

var cur = func() *current {
	c := &current{mu: make(chan bool, 1)}
	c.mu <- true
	return c
}()

func cpuSeconds() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec) + float64(u.Utime.Usec)/1e6
}

func (c *current) set(n string, s int64) {
	<-c.mu
	c.n, c.s, c.t = n, s, time.Now()
	c.mu <- true
}

// Main runs the cases; results go to the file named by ZZ_OUT, one JSON object per line.
func Main(cases []Case, info *Info) {
	out, err := os.Create(os.Getenv("ZZ_OUT"))
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var seed, ms, iters int64
	fmt.Sscan(os.Getenv("ZZ_SEED"), &seed)
	fmt.Sscan(os.Getenv("ZZ_MS"), &ms)
	fmt.Sscan(os.Getenv("ZZ_ITERS"), &iters)
	if ms == 0 {
		ms = 500
	}
	if iters == 0 {
		iters = 1 << 40
	}
	debug.SetMaxStack(64 << 20)
	emit := func(r Result) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	byName := map[string]*Case{}
	for i := range cases {
		byName[cases[i].Name] = &cases[i]
	}
	go func() {
		var beats int64
		var since time.Time
		var at float64
		for {
			time.Sleep(500 * time.Millisecond)
			<-cur.mu
			n, s, t := cur.n, cur.s, cur.t
			cur.mu <- true
			if b := zz.Beats; b != beats || t.After(since) {
				beats, since, at = b, time.Now(), cpuSeconds()
			}
			// 20 s of waiting and of computing, so that a busy machine is not mistaken for a loop
			if n != "" && time.Since(since) > 20*time.Second && (cpuSeconds()-at > 15 || time.Since(since) > 150*time.Second) {
				c := byName[n]
				buf := make([]byte, 1<<16)
				k := runtime.Stack(buf, true)
				emit(Result{Case: n, Kind: c.Kind, Fail: true, What: "does not terminate (20 s)", Args: zz.Input + dumpAll(makeArgs(c, info, reflect.ValueOf(c.Spec).Type(), s)), Got: string(buf[:k]), Seed: s})
				out.Close()
				os.Exit(0)
			}
		}
	}()
	only := os.Getenv("ZZ_ONLY")
	for i := range cases {
		if only != "" && !strings.Contains(","+only+",", ","+cases[i].Name+",") {
			continue
		}
		runCase(&cases[i], info, seed, time.Duration(ms)*time.Millisecond, iters, emit)
	}
}
