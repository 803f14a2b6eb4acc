package zznat

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// World is everything outside the code: a database whose answers are a function of a seed and of the history of what it was
// asked. It records that history, interleaved with the text on standard output. Two runs from one seed that have the same
// history have met the same world.
type World struct {
	seed int64
	log  []string
	db   *sql.DB
	strs []string
	// definitions that the planner accepts, if it takes part
	seeds []string
	pos   int64
}

var worldT = reflect.TypeOf((*World)(nil))
var dbT = reflect.TypeOf((*sql.DB)(nil))

func (g *gen) theWorld() *World {
	if g.world == nil {
		g.world = &World{seed: g.seed, strs: g.strs, seeds: g.seeds}
	}
	return g.world
}

// capture is the file that stands for standard output while a function runs.
var capture *os.File

func (w *World) drain() {
	if capture == nil {
		return
	}
	n, err := capture.Seek(0, io.SeekCurrent)
	if err != nil || n <= w.pos {
		return
	}
	b := make([]byte, n-w.pos)
	capture.ReadAt(b, w.pos)
	w.pos = n
	w.log = append(w.log, "stdout "+strconv.Quote(string(b)))
}

func (w *World) event(format string, as ...interface{}) uint64 {
	w.drain()
	w.log = append(w.log, fmt.Sprintf(format, as...))
	h := fnv.New64a()
	fmt.Fprint(h, w.seed)
	for _, l := range w.log {
		io.WriteString(h, l)
		h.Write([]byte{0})
	}
	return h.Sum64() >> 1
}

// rnd derives the i-th answer to an event.
func rnd(h uint64, i, n int) int {
	x := h + uint64(i+1)*0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return int((x >> 8) % uint64(n))
}

func (w *World) fails(h uint64, pct int) error {
	if rnd(h, 1000, 100) < pct {
		return errors.New("failure " + strconv.Itoa(rnd(h, 1001, 3)))
	}
	return nil
}

func (w *World) str(h uint64, i int) string {
	small := []string{"a", "b", "c"}
	lit := func() string {
		l := w.strs[rnd(h, i+500, len(w.strs))]
		if len(l) > 30 {
			l = w.strs[rnd(h, i+501, len(w.strs))]
		}
		return l
	}
	switch k := rnd(h, i, 11); {
	case k < 5:
		return small[rnd(h, i+500, 3)]
	case k < 6:
		return ""
	case k < 8 && len(w.strs) > 0:
		return lit()
	case k < 10 && len(w.strs) > 0:
		s := lit()
		c := rnd(h, i+800, 3)
		if c > 0 {
			s = small[rnd(h, i+700, 3)] + s
		}
		if c != 1 {
			s += small[rnd(h, i+701, 3)]
		}
		return s
	}
	return oddPool[rnd(h, i+500, len(oddPool))]
}

func (w *World) list(h uint64) []string {
	n := rnd(h, 2000, 4)
	if n == 0 {
		return nil
	}
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, w.str(h, 100+i))
	}
	return r
}

// defs: definitions of views or triggers.
func (w *World) defs(h uint64, def string) []string {
	if len(w.seeds) == 0 || rnd(h, 2001, 10) == 0 {
		return w.list(h)
	}
	if rnd(h, 2002, 3) == 0 {
		return []string{def}
	}
	return nil
}

func (w *World) TableNames() ([]string, error) {
	h := w.event("TableNames")
	if err := w.fails(h, 8); err != nil {
		return nil, err
	}
	if len(w.seeds) > 0 {
		// each table once
		r := []string{}
		for i, n := range []string{"users", "posts", "logs"} {
			if rnd(h, 2100+i, 2) == 0 {
				r = append(r, n)
			}
		}
		return r, nil
	}
	return w.list(h), nil
}

func (w *World) DumpTableDDL(table string) (string, error) {
	h := w.event("DumpTableDDL %q", table)
	if err := w.fails(h, 8); err != nil {
		return "", err
	}
	if len(w.seeds) > 0 && rnd(h, 7, 20) > 0 {
		for i := range w.seeds {
			if d := w.seeds[(i+rnd(h, 8, len(w.seeds)))%len(w.seeds)]; strings.Contains(d, " "+table+" ") {
				return d, nil
			}
		}
	}
	return "create " + w.str(h, 0), nil
}

func (w *World) Views() ([]string, error) {
	h := w.event("Views")
	if err := w.fails(h, 8); err != nil {
		return nil, err
	}
	return w.defs(h, "create view v as select 1"), nil
}

func (w *World) Triggers() ([]string, error) {
	h := w.event("Triggers")
	if err := w.fails(h, 8); err != nil {
		return nil, err
	}
	return w.defs(h, "create trigger t after insert on users for each row insert into log values (1)"), nil
}

func (w *World) Close() error { return w.fails(w.event("Close"), 10) }

func (w *World) DB() *sql.DB {
	if w.db == nil {
		w.db = sql.OpenDB(&fakeConnector{w})
	}
	return w.db
}

func (w *World) end() {
	w.drain()
	if w.db != nil {
		w.db.Close()
	}
}

type fakeConnector struct{ w *World }

func (c *fakeConnector) Connect(context.Context) (driver.Conn, error) { return &fakeConn{c.w}, nil }
func (c *fakeConnector) Driver() driver.Driver                        { return fakeDriver{} }

type fakeDriver struct{}

func (fakeDriver) Open(string) (driver.Conn, error) { return nil, errors.New("not used") }

type fakeConn struct{ w *World }

func (c *fakeConn) Prepare(q string) (driver.Stmt, error) {
	h := c.w.event("Prepare %q", q)
	if err := c.w.fails(h, 5); err != nil {
		return nil, err
	}
	return &fakeStmt{c.w, q}, nil
}
func (c *fakeConn) Close() error { return nil }
func (c *fakeConn) Begin() (driver.Tx, error) {
	h := c.w.event("Begin")
	if err := c.w.fails(h, 10); err != nil {
		return nil, err
	}
	return &fakeTx{c.w}, nil
}
func (c *fakeConn) ExecContext(_ context.Context, q string, as []driver.NamedValue) (driver.Result, error) {
	return c.w.exec(q, as)
}
func (c *fakeConn) QueryContext(_ context.Context, q string, as []driver.NamedValue) (driver.Rows, error) {
	return c.w.query(q, as)
}

type fakeStmt struct {
	w *World
	q string
}

func (s *fakeStmt) Close() error  { return nil }
func (s *fakeStmt) NumInput() int { return -1 }
func (s *fakeStmt) Exec(as []driver.Value) (driver.Result, error) {
	return s.w.exec(s.q, named(as))
}
func (s *fakeStmt) Query(as []driver.Value) (driver.Rows, error) {
	return s.w.query(s.q, named(as))
}

func named(as []driver.Value) []driver.NamedValue {
	var r []driver.NamedValue
	for i, a := range as {
		r = append(r, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return r
}

func values(as []driver.NamedValue) string {
	s := ""
	for _, a := range as {
		s += fmt.Sprintf(" %q", fmt.Sprint(a.Value))
	}
	return s
}

func (w *World) exec(q string, as []driver.NamedValue) (driver.Result, error) {
	h := w.event("Exec %q%s", q, values(as))
	if err := w.fails(h, 12); err != nil {
		return nil, err
	}
	return driver.RowsAffected(int64(rnd(h, 3, 4))), nil
}

type fakeTx struct{ w *World }

func (t *fakeTx) Commit() error   { return t.w.fails(t.w.event("Commit"), 15) }
func (t *fakeTx) Rollback() error { return t.w.fails(t.w.event("Rollback"), 15) }

// what is known of the columns of a query: learned from what the code's Scan calls accept
type shape struct {
	n    int
	kind []int // 0 text, 1 number, 2 truth value
	null []bool
}

var shapes = map[string]*shape{}
var lastQuery string

var numRE = regexp.MustCompile(`'[^']*'`)

func shapeKey(q string) string {
	// the parts of a query that are quoted vary with the arguments
	return numRE.ReplaceAllString(q, "'")
}

func (w *World) query(q string, as []driver.NamedValue) (driver.Rows, error) {
	// the layout of a query does not matter
	q = strings.TrimSpace(strings.TrimSuffix(strings.Join(strings.Fields(q), " "), ";"))
	h := w.event("Query %q%s", q, values(as))
	if err := w.fails(h, 6); err != nil {
		return nil, err
	}
	k := shapeKey(q)
	s := shapes[k]
	if s == nil {
		s = &shape{n: 1, kind: make([]int, 40), null: make([]bool, 40)}
		for i := range s.null {
			s.null[i] = true
		}
		shapes[k] = s
	}
	lastQuery = k
	return &fakeRows{w: w, key: k, n: s.n, left: rnd(h, 4, 4), broken: rnd(h, 5, 100) < 12}, nil
}

type fakeRows struct {
	w      *World
	key    string
	n      int
	left   int
	broken bool
}

func (r *fakeRows) Columns() []string {
	var c []string
	for i := 0; i < r.n; i++ {
		c = append(c, "c"+strconv.Itoa(i))
	}
	return c
}
func (r *fakeRows) Close() error { return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	lastQuery = r.key
	if r.left == 0 {
		if r.broken {
			r.w.event("row stream fails")
			return errors.New("row stream")
		}
		return io.EOF
	}
	r.left--
	h := r.w.event("Row")
	s := shapes[r.key]
	for i := range dest {
		if s.null[i] && rnd(h, 10+i, 100) < 30 {
			dest[i] = nil
			continue
		}
		switch s.kind[i] {
		case 0:
			dest[i] = r.w.str(h, 40+i)
		case 1:
			dest[i] = strconv.Itoa(rnd(h, 40+i, 12))
		case 2:
			dest[i] = rnd(h, 40+i, 2) == 0
		}
	}
	return nil
}

var countRE = regexp.MustCompile(`expected \d+ destination arguments in Scan, not (\d+)`)
var scanRE = regexp.MustCompile(`Scan error on column index (\d+)`)

type complaint struct {
	query string
	err   error
}

var pending []complaint

// learnAll adjusts the shapes of the queries to what Scan complained about.
func learnAll() {
	for _, c := range pending {
		learn(c.query, c.err)
	}
	pending = nil
}

func learn(q string, err error) {
	s := shapes[q]
	if s == nil || err == nil {
		return
	}
	if m := countRE.FindStringSubmatch(err.Error()); m != nil {
		n, _ := strconv.Atoi(m[1])
		if n < 40 {
			s.n = n
		}
		return
	}
	if m := scanRE.FindStringSubmatch(err.Error()); m != nil {
		i, _ := strconv.Atoi(m[1])
		if i >= 40 {
			return
		}
		if strings.Contains(err.Error(), "NULL") {
			s.null[i] = false
		} else {
			s.kind[i] = (s.kind[i] + 1) % 3
		}
	}
}
