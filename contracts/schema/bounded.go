package schema

import (
	"math/rand"

	zz "github.com/k0kubun/sqldef/zzverif"
)

// readQuotedZ reads one quoted name as a database does: from the opening quote up to the first closing quote that is not
// doubled. It gives the name and what follows.
func readQuotedZ(open, close byte, s string) (name, rest string, ok bool) {
	if s == "" || s[0] != open {
		return "", "", false
	}
	var b []byte
	for i := 1; i < len(s); i++ {
		if s[i] != close {
			b = append(b, s[i])
			continue
		}
		if i+1 < len(s) && s[i+1] == close {
			b = append(b, close)
			i++
			continue
		}
		return string(b), s[i+1:], true
	}
	return "", "", false
}

// What a database reads from a quoted name, whatever follows that is not another quote, is the name itself; a table name
// reads as its schema and its name.
//
//@ bounded
//@ prop C01
func quotedNamesReadBack() {
	zz.Beat("quoted names")
	r := rand.New(rand.NewSource(zz.Seed))
	parts := []string{"a", "users", "\"", "`", "[", "]", "'", "\\", " ", ";", "--", "/*", "é", "\x00", "\n", "\xff", "0", "select", "%s", "$"}
	one := func() string {
		s := ""
		for n := r.Intn(6); n >= 0; n-- {
			s += parts[r.Intn(len(parts))]
		}
		return s
	}
	for n := 0; n < 400; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			open, close := byte('`'), byte('`')
			schema := ""
			switch m {
			case GeneratorModePostgres:
				open, close, schema = '"', '"', "public"
			case GeneratorModeMssql:
				open, close, schema = '[', ']', "dbo"
			}
			g := &Generator{mode: m}
			name, sep := one(), []string{"", " ", ".", ",", ")"}[r.Intn(5)]
			q := g.escapeSQLName(name)
			got, rest, ok := readQuotedZ(open, close, q+sep)
			if !ok || got != name || rest != sep {
				zz.Fail("a quoted name reads as the name", "mode %d, name %q: %q reads as %q, then %q", m, name, q, got, rest)
			}
			table := name
			if r.Intn(2) == 0 && schema != "" {
				schema = one()
				table = schema + "." + name
			}
			q = g.escapeTableName(table)
			rest = q + sep
			if schema != "" {
				got, rest, ok = readQuotedZ(open, close, rest)
				if !ok || got != schema || rest == "" || rest[0] != '.' {
					zz.Fail("a table name reads as its schema and name", "mode %d, table %q: %q", m, table, q)
					continue
				}
				rest = rest[1:]
			}
			got, rest, ok = readQuotedZ(open, close, rest)
			if !ok || got != name || rest != sep {
				zz.Fail("a table name reads as its schema and name", "mode %d, table %q: %q", m, table, q)
			}
		}
	}
}
