package sqlparser

import (
	"io"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

// Sentences for the parser are made by walking its own tables: in every state one of the tokens that the tables accept
// there is chosen, the ones used least first, and now and then one that they do not accept.

type walker struct {
	r    *rand.Rand
	used map[[2]int]int
	seen map[int]int
	text map[int][]string
	edge map[uint64]bool // steps of the automaton that were taken
	last [1 << 16]uint64
	news bool
}

var sentences *walker

var parserModes = []ParserMode{ParserModeMysql, ParserModePostgres, ParserModeSQLite3, ParserModeMssql}

func newWalker() *walker {
	w := &walker{used: map[[2]int]int{}, seen: map[int]int{}, edge: map[uint64]bool{}, text: map[int][]string{}}
	tok := func(id int) int {
		switch {
		case id <= 0:
			return yyTok1[0]
		case id < len(yyTok1):
			return yyTok1[id]
		case id >= yyPrivate && id < yyPrivate+len(yyTok2):
			return yyTok2[id-yyPrivate]
		}
		for i := 0; i+1 < len(yyTok3); i += 2 {
			if yyTok3[i] == id {
				return yyTok3[i+1]
			}
		}
		return -1
	}
	add := func(id int, ss ...string) {
		if t := tok(id); t > 0 {
			w.text[t] = append(w.text[t], ss...)
		}
	}
	var ks []string
	for k := range keywords {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(keywords[k], k)
	}
	for _, c := range "=,;()[]+*%^~&|/-<>!.?:{}@" {
		add(int(c), string(c))
	}
	add(ID, "a", "users", "`b`", "\"c\"", "[d]", "x1")
	add(STRING, "'s'", "''", "'it''s'", "N's'")
	add(HEX, "X'0f'")
	add(BIT_LITERAL, "B'01'")
	add(INTEGRAL, "1", "0", "255")
	add(FLOAT, "1.5", ".5", "1e3")
	add(HEXNUM, "0xff")
	add(VALUE_ARG, ":v", "?")
	add(LIST_ARG, "::l")
	add(COMMENT, "/* c */", "-- c\n")
	add(AND, "&&")
	add(OR, "||")
	add(NE, "<>", "!=")
	add(LE, "<=")
	add(GE, ">=")
	add(NULL_SAFE_EQUAL, "<=>")
	add(SHIFT_LEFT, "<<")
	add(SHIFT_RIGHT, ">>")
	add(JSON_EXTRACT_OP, "->")
	add(JSON_UNQUOTE_EXTRACT_OP, "->>")
	add(TYPECAST, "::")
	return w
}

func (w *walker) note(a, b, c int) {
	k := uint64(a)<<48 | uint64(b)<<24 | uint64(c)
	h := (k * 0x9E3779B97F4A7C15) >> 48
	if w.last[h] == k {
		return
	}
	w.last[h] = k
	if !w.edge[k] {
		w.edge[k], w.news = true, true
	}
}

// step applies the token to the stack of states: 1 shifted, 0 refused, 2 accepted.
func (w *walker) step(st []int, t int) ([]int, int) {
	for n := 0; n < 2000; n++ {
		s := st[len(st)-1]
		k := int(yyPact[s])
		if k > yyFlag {
			if k += t; k >= 0 && k < yyLast {
				if a := int(yyAct[k]); int(yyChk[a]) == t {
					w.note(0, s, a)
					return append(st, a), 1
				}
			}
		}
		k = int(yyDef[s])
		if k == -2 {
			x := 0
			for int(yyExca[x]) != -1 || int(yyExca[x+1]) != s {
				x += 2
			}
			for x += 2; ; x += 2 {
				if k = int(yyExca[x]); k < 0 || k == t {
					break
				}
			}
			if k = int(yyExca[x+1]); k < 0 {
				return st, 2
			}
		}
		if k == 0 {
			return st, 0
		}
		if len(st) <= int(yyR2[k]) {
			return st, 0
		}
		st = st[:len(st)-int(yyR2[k])]
		l := int(yyR1[k])
		g := int(yyPgo[l])
		j := g + st[len(st)-1] + 1
		var ns int
		if j >= yyLast {
			ns = int(yyAct[g])
		} else if ns = int(yyAct[j]); int(yyChk[ns]) != -l {
			ns = int(yyAct[g])
		}
		w.note(1, st[len(st)-1], ns)
		w.note(2, s, k)
		st = append(st, ns)
	}
	return st, 0
}

func (w *walker) sentence(r *rand.Rand) string {
	var out []string
	st := []int{0}
	limit := 4 + r.Intn(100)
	for len(out) < limit {
		s := st[len(st)-1]
		type cand struct {
			t, n int
			st   []int
		}
		var cs []cand
		end := false
		if _, k := w.step(append([]int{}, st...), 1); k == 2 {
			end = true
		}
		for t := range w.text {
			if ns, k := w.step(append([]int{}, st...), t); k == 1 {
				cs = append(cs, cand{t, w.used[[2]int{s, t}], ns})
			}
		}
		if len(cs) == 0 || end && r.Intn(12) == 0 {
			break
		}
		sort.Slice(cs, func(i, j int) bool {
			if cs[i].n != cs[j].n {
				return cs[i].n < cs[j].n
			}
			return cs[i].t < cs[j].t
		})
		i := 0
		switch r.Intn(3) {
		case 0:
			i = r.Intn(len(cs))
		case 1:
			// one of those used least
			n := sort.Search(len(cs), func(i int) bool { return cs[i].n > cs[0].n })
			i = r.Intn(n)
		default:
			// one that leads to a state visited least
			for j := range cs {
				if a, b := cs[j].st, cs[i].st; w.seen[a[len(a)-1]] < w.seen[b[len(b)-1]] {
					i = j
				}
			}
		}
		c := cs[i]
		w.seen[c.st[len(c.st)-1]]++
		w.used[[2]int{s, c.t}]++
		x := w.text[c.t]
		out = append(out, x[r.Intn(len(x))])
		st = c.st
		if r.Intn(400) == 0 {
			// something that does not belong here
			out = append(out, oddTexts[r.Intn(len(oddTexts))])
		}
	}
	return strings.Join(out, " ")
}

// edges: for every step of the automaton that the tables allow, a text that takes it, followed by every token accepted next.
func (w *walker) edges(f func(text string)) {
	var ts []int
	for t := range w.text {
		ts = append(ts, t)
	}
	sort.Ints(ts)
	type node struct {
		st   []int
		text string
	}
	queue := []node{{[]int{0}, ""}}
	var tmp []int
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		zz.Beat("walking the tables")
		for _, t := range ts {
			w.news = false
			tmp = append(tmp[:0], n.st...)
			ns, k := w.step(tmp, t)
			tmp = ns
			if !w.news || k != 1 {
				continue
			}
			text := n.text + " " + w.text[t][0]
			f(text)
			queue = append(queue, node{append([]int{}, ns...), text})
		}
	}
}

// Parsing ends with a result or an error: sentences of the grammar, sentences with a change in them, and odd texts.
//
//@ bounded
//@ prop C21
func parserTotal() {
	if sentences == nil {
		sentences = newWalker()
		n := 0
		sentences.edges(func(text string) {
			if n++; n%4 == int(zz.Seed&3) {
				for _, mode := range parserModes {
					parseQuietly(text, mode)
				}
			} else {
				parseQuietly(text, parserModes[n%4])
			}
		})
	}
	r := rand.New(rand.NewSource(zz.Seed))
	for i := 0; i < 400; i++ {
		text := sentences.sentence(r)
		if r.Intn(4) == 0 {
			text = scramble(r, text)
		}
		for _, mode := range parserModes {
			parseQuietly(text, mode)
		}
	}
}

var oddTexts = []string{"/*", "*/", "/*!", "/*!5", "/*! */", "--", "#", "'", "\"", "`", "\\", "X'", "B'", "0x", "1e", "1.", ":", "::", ";", "\x00", "\xff", "é", "\n", "[", "]", "(", "-", "->", "@@", ".", "N'", "=", "<", "!"}

func scramble(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := r.Intn(3); n >= 0; n-- {
		switch i := r.Intn(len(b) + 1); r.Intn(4) {
		case 0:
			b = b[:i]
		case 1:
			b = b[i:]
		case 2:
			b = append(append(append([]byte{}, b[:i]...), oddTexts[r.Intn(len(oddTexts))]...), b[i:]...)
		default:
			if i < len(b) {
				b[i] = byte(r.Intn(256))
			}
		}
	}
	return string(b)
}

func parseQuietly(text string, mode ParserMode) {
	defer func() {
		if p := recover(); p != nil {
			zz.Fail("parsing ends with a result or an error", "text %q, mode %v: panic: %v\n%s", text, mode, p, debug.Stack())
		}
	}()
	zz.Beat(text)
	ParseStrictDDLWithMode(text, mode)
	t := NewStringTokenizer(text, mode)
	for n := 0; n <= len(text)+2; n++ {
		if _, err := ParseNext(t); err == io.EOF {
			return
		}
	}
	zz.Fail("reading statement by statement ends", "text %q, mode %v", text, mode)
}
