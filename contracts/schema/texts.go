package schema

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

// Statements are written here from a model, attribute by attribute, and read by the tool's own parser; the model it gives
// must be the one the text was written from. The tables of the generated parser are beyond the verifier; this is what
// stands in for them.
//
//@ bounded
//@ prop C07 C20
func writtenTextsAreRead() {
	r := rand.New(rand.NewSource(zz.Seed))
	for n := 0; n < 200; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			w := &writerZ{r: r, mode: m}
			texts, want := []string{}, []DDL{}
			for k := r.Intn(4); k >= 0; k-- {
				text, ddl := w.statement()
				texts, want = append(texts, text), append(want, ddl)
			}
			all := strings.Join(texts, ";\n")
			if r.Intn(2) == 0 {
				all += ";" + []string{"", "\n", " \n\n"}[r.Intn(3)]
			}
			zz.Beat(all)
			got, err := parseDDLs(m, all)
			if err != nil {
				zz.Fail("the statements are read", "mode %d, text %q: %v", m, all, err)
				continue
			}
			if len(got) != len(want) {
				zz.Fail("every statement is read", "mode %d, text %q: %d statements", m, all, len(got))
				continue
			}
			for i := range got {
				if reflect.TypeOf(got[i]) != reflect.TypeOf(want[i]) {
					zz.Fail("the kind of statement is read", "mode %d, text %q: %T, want %T", m, texts[i], got[i], want[i])
				} else if d := differenceZ(reflect.ValueOf(got[i]), reflect.ValueOf(want[i]), ""); d != "" {
					zz.Fail("the statement is read as written", "mode %d, text %q: %s", m, texts[i], d)
				}
			}
		}
	}
}

// differenceZ names the first place where two models differ; no list and an empty list are the same.
func differenceZ(a, b reflect.Value, at string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %s, want %s", at, textZ(a), textZ(b))
			}
			return ""
		}
		return differenceZ(a.Elem(), b.Elem(), at)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := differenceZ(a.Field(i), b.Field(i), at+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %s, want %s", at, textZ(a), textZ(b))
		}
		for i := 0; i < a.Len(); i++ {
			if d := differenceZ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if textZ(a) != textZ(b) {
		return fmt.Sprintf("%s: %s, want %s", at, textZ(a), textZ(b))
	}
	return ""
}

func textZ(v reflect.Value) string {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() == reflect.String {
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprintf("%+v", v)
}

// writerZ writes statements.
type writerZ struct {
	r    *rand.Rand
	mode GeneratorMode
}

func (w *writerZ) is(n int) bool { return w.r.Intn(n) == 0 }

func (w *writerZ) one(of ...string) string { return of[w.r.Intn(len(of))] }

// word writes keywords in some letter case, with some space between them.
func (w *writerZ) word(s string) string {
	words := strings.Split(s, " ")
	for i, t := range words {
		switch w.r.Intn(3) {
		case 0:
			words[i] = strings.ToUpper(t)
		case 1:
			b := []byte(t)
			for j := range b {
				if w.is(2) {
					b[j] = strings.ToUpper(t)[j]
				}
			}
			words[i] = string(b)
		}
	}
	return strings.Join(words, w.one(" ", " ", "  ", "\n", "\t", "\r\n  "))
}

func (w *writerZ) space() string { return w.one("", "", " ", "\n  ") }

var plainNamesZ = []string{"a", "b", "id", "name", "user_id", "Users", "orderItems", "t1", "_x", "x9", "utf8", "binary2"}

// name writes a name, in quotes if it needs them or by chance.
func (w *writerZ) name() (text, name string) {
	name = plainNamesZ[w.r.Intn(len(plainNamesZ))]
	if w.is(3) {
		name += strconv.Itoa(w.r.Intn(100))
	}
	text = name
	if w.is(3) {
		if w.is(2) {
			name = w.one("select", "table", "Order", "a b", "a.b", "1st", "é", "it's", "per%", "a-b", "x(y)", "KEY", "a\"b", "a`b", "a]b", "a[b", "/*")
		}
		open, close := "`", "`"
		switch w.mode {
		case GeneratorModePostgres:
			open, close = `"`, `"`
		case GeneratorModeMssql:
			open, close = "[", "]"
			if w.is(3) {
				open, close = `"`, `"`
			}
		case GeneratorModeSQLite3:
			if w.is(2) {
				open, close = `"`, `"`
			}
		}
		text = open + strings.Replace(name, close, close+close, -1) + close
	}
	return text, name
}

func (w *writerZ) names() (text string, names []string) {
	texts := []string{}
	for n := w.r.Intn(3); n >= 0; n-- {
		t, name := w.name()
		texts, names = append(texts, t), append(names, name)
	}
	return strings.Join(texts, w.space()+","+w.space()), names
}

// table writes the name of a table, with a schema by chance. The schema is kept for PostgreSQL only.
func (w *writerZ) table() (text, name string) {
	text, name = w.name()
	schema := "public"
	if w.is(3) {
		var t string
		t, schema = w.name()
		text = t + "." + text
	}
	if w.mode == GeneratorModePostgres {
		name = schema + "." + name
	}
	return text, name
}

// str writes the literal of a string.
func (w *writerZ) str() (text, s string) {
	for n := w.r.Intn(5); n > 0; n-- {
		s += w.one("a", "B", " ", "'", "0", "%", "é", "\"", "`", ",", ")", "--", "\n")
	}
	s = strings.Replace(s, "\n-", "\n+", -1) // see literalsAreKept
	return "'" + strings.Replace(s, "'", "''", -1) + "'", s
}

func (w *writerZ) number() (text string, n int) {
	n = w.r.Intn(300)
	return strconv.Itoa(n), n
}

func intZ(n int) *Value {
	return &Value{valueType: ValueTypeInt, raw: []byte(strconv.Itoa(n)), intVal: n}
}

func argZ(s string) *Value {
	return &Value{valueType: ValueTypeValArg, raw: []byte(s)}
}

func boolZ(b bool) *Value {
	return &Value{valueType: ValueTypeBool, raw: []byte(strconv.FormatBool(b))}
}

func (w *writerZ) timestamp() (string, *Value) {
	switch w.r.Intn(5) {
	case 0:
		return w.word("current_timestamp"), argZ("current_timestamp")
	case 1:
		return w.word("current_timestamp") + "()", argZ("current_timestamp")
	case 2:
		t, _ := w.number()
		return w.word("current_timestamp") + "(" + t + ")", argZ("current_timestamp(" + t + ")")
	case 3:
		return w.word("current_date"), argZ("current_date")
	}
	t, _ := w.number()
	return w.word("current_time") + "(" + t + ")", argZ("current_time(" + t + ")")
}

func (w *writerZ) defaultValue() (string, *Value) {
	switch w.r.Intn(8) {
	case 0, 1:
		t, s := w.str()
		if w.mode == GeneratorModePostgres && w.is(2) {
			t += "::" + w.word(w.one("character varying", "timestamp", "timestamp with time zone", "timestamp without time zone", "bpchar", "text"))
		}
		return t, &Value{valueType: ValueTypeStr, raw: []byte(s), strVal: s}
	case 2:
		t, n := w.number()
		if w.is(3) {
			t, n = "-"+t, -n
		}
		v := intZ(n)
		v.raw = []byte(t)
		return t, v
	case 3:
		t, _ := w.number()
		t += "." + w.one("0", "5", "25", "000", "125")
		if w.is(3) {
			t = "-" + t
		}
		f, _ := strconv.ParseFloat(t, 64)
		return t, &Value{valueType: ValueTypeFloat, raw: []byte(t), floatVal: f}
	case 4:
		return w.word("null"), argZ("null")
	case 5:
		return w.timestamp()
	case 6:
		b := w.is(2)
		return w.word(strconv.FormatBool(b)), boolZ(b)
	}
	s := w.one("0", "1", "01", "10")
	return w.one("b", "B") + "'" + s + "'", &Value{valueType: ValueTypeBit, raw: []byte(s), bitVal: s == "1"}
}

// condition writes a condition in the form in which the tool prints it; it is not one pair of parentheses.
func (w *writerZ) condition() string { return w.conditionOf(2) }

func (w *writerZ) conditionOf(d int) string {
	if d > 0 {
		switch w.r.Intn(12) {
		case 0, 1:
			return w.conditionOf(d-1) + w.one(" and ", " or ") + w.conditionOf(d-1)
		case 2:
			return "not " + w.conditionOf(d-1)
		case 3:
			return "(" + w.conditionOf(d-1) + ")" + w.one(" and ", " or ") + w.value(d-1) + " < " + w.value(d-1)
		case 4:
			return w.value(d-1) + w.one(" in ", " not in ") + w.one("("+w.values(d-1)+")", "("+w.selectOf(d-1)+")")
		case 5:
			return "exists (" + w.selectOf(d-1) + ")"
		}
	}
	switch w.r.Intn(8) {
	case 0, 1, 2:
		return w.value(d) + w.one(" = ", " < ", " > ", " <= ", " >= ", " != ", " <=> ") + w.value(d)
	case 3:
		return w.value(d) + w.one(" like ", " not like ") + w.literal() + w.one("", " escape '!'")
	case 4:
		return w.value(d) + w.one(" regexp ", " not regexp ") + w.literal()
	case 5:
		return w.value(d) + w.one(" between ", " not between ") + w.value(0) + " and " + w.value(0)
	case 6:
		return w.value(d) + w.one(" is null", " is not null", " is true", " is not true", " is false", " is not false")
	}
	return w.plain() + w.one(" is null", " = 1", " in ('x', 'y')")
}

func (w *writerZ) plain() string { return plainNamesZ[w.r.Intn(len(plainNamesZ))] }

func (w *writerZ) literal() string {
	return w.one("'x'", "''", "'it\\'s'", "'a%'", "'é'", "'a b'", "'\\\\'", "'(x)'")
}

func (w *writerZ) values(d int) string {
	t := w.value(d)
	for n := w.r.Intn(3); n > 0; n-- {
		t += ", " + w.value(d)
	}
	return t
}

func (w *writerZ) value(d int) string {
	if d > 0 {
		v := func() string { return w.value(d - 1) }
		switch w.r.Intn(22) {
		case 0, 1, 2:
			return v() + w.one(" + ", " - ", " * ", " / ", " % ", " & ", " | ", " ^ ", " << ", " >> ", " div ") + v()
		case 3:
			return "(" + v() + ")"
		case 4:
			return "(" + v() + ", " + w.values(d-1) + ")"
		case 5:
			return w.one("length", "lower", "coalesce", "abs", "f1", "left", "right", "if", "mod", "replace", "public.f") + "(" + w.values(d-1) + ")"
		case 6:
			return w.one("count(*)", "count(distinct "+w.plain()+")", "now()", "current_timestamp()", "utc_date()", "database()")
		case 7:
			return "substr(" + w.plain() + ", " + v() + w.one("", ", "+v()) + ")"
		case 8:
			return "convert(" + v() + ", " + w.one("signed", "unsigned", "date", "binary", "char", "decimal(10, 2)", "json", "binary(8)", "time") + ")"
		case 9:
			return "convert(" + v() + " using utf8)"
		case 10:
			t := "case " + w.one("", v()+" ")
			for n := w.r.Intn(2); n >= 0; n-- {
				t += "when " + w.conditionOf(d-1) + " then " + v() + " "
			}
			return t + w.one("", "else "+v()+" ") + "end"
		case 11:
			return w.one("-", "~", "!", "+", "binary ") + w.plain()
		case 12:
			return "interval " + w.one("1", "a") + " " + w.one("day", "hour", "month")
		case 13:
			return w.plain() + " collate utf8_bin"
		case 14:
			return w.plain() + w.one(" -> ", " ->> ") + "'$.x'"
		case 15:
			return "(" + w.selectOf(d-1) + ")"
		}
	}
	switch w.r.Intn(10) {
	case 0, 1:
		return w.one("0", "1", "42", "-1", "100000000000000000000", "007")
	case 2:
		return w.one("1.5", "0.25", "-3.0", ".5", "1e5", "2.5e-3")
	case 3, 4:
		return w.literal()
	case 5:
		return w.one("null", "true", "false", "X'4d'", "B'01'", "0x1f")
	case 6:
		return w.one("t", "u", "Users") + "." + w.plain()
	}
	return w.plain()
}

// selectOf writes a query in the form in which the tool prints it.
func (w *writerZ) selectOf(d int) string {
	t := "select "
	if w.is(5) {
		t += "distinct "
	}
	one := func() string {
		if w.is(5) {
			return w.one("*", "t.*")
		}
		return w.value(d) + w.one("", " as "+w.plain())
	}
	t += one()
	for n := w.r.Intn(3); n > 0; n-- {
		t += ", " + one()
	}
	t += " from " + w.tableOf(d)
	if w.is(2) {
		t += " where " + w.conditionOf(d)
	}
	if w.is(4) {
		t += " group by " + w.plain() + w.one("", ", "+w.plain())
		if w.is(2) {
			t += " having " + w.conditionOf(d)
		}
	}
	if w.is(4) {
		t += " order by " + w.plain() + w.one(" asc", " desc") + w.one("", ", "+w.plain()+w.one(" asc", " desc"))
	}
	if w.is(5) {
		t += w.one(" limit 10", " limit 5, 10")
	}
	return t
}

func (w *writerZ) tableOf(d int) string {
	table := func() string {
		if d > 0 && w.is(6) {
			return "(" + w.selectOf(d-1) + ") as " + w.plain()
		}
		return w.one("t", "u", "Users", "public.t", "_x") + w.one("", "", " as "+w.plain())
	}
	t := table()
	for n := w.r.Intn(3); n > 0; n-- {
		switch w.r.Intn(5) {
		case 0:
			t += ", " + table()
		case 1:
			t += w.one(" natural join ", " join ") + table()
		default:
			t += w.one(" join ", " left join ", " right join ") + table() + " on " + w.conditionOf(0)
		}
	}
	return t
}

// body writes a statement of a trigger in the form in which the tool prints it.
func (w *writerZ) body() string {
	switch w.r.Intn(4) {
	case 0:
		t := w.one("delete", "delete") + " from " + w.one("t", "log")
		if w.is(2) {
			t += " where " + w.conditionOf(1)
		}
		if w.is(5) {
			t += " order by a asc limit 1"
		}
		return t
	case 1:
		t := "update " + w.one("t", "log") + " set a = " + w.value(1)
		if w.is(2) {
			t += ", b = " + w.value(1)
		}
		if w.is(2) {
			t += " where " + w.conditionOf(1)
		}
		return t
	case 2:
		return w.one("insert into ", "insert ignore into ") + "log(a, b) " + w.selectOf(1)
	}
	t := w.one("insert", "insert ignore", "replace") + " into log(a, b) values (" + w.value(1) + ", " + w.value(1) + ")"
	if w.is(3) {
		t += ", (" + w.value(1) + ", " + w.value(0) + ")"
	}
	return t
}

func (w *writerZ) length() (string, *Value) {
	if w.is(2) {
		return "", nil
	}
	t, n := w.number()
	return w.space() + "(" + w.space() + t + w.space() + ")", intZ(n)
}

func (w *writerZ) lengthAndScale() (string, *Value, *Value) {
	t, n := w.number()
	u, s := w.number()
	return w.space() + "(" + t + w.space() + "," + w.space() + u + ")", intZ(n), intZ(s)
}

func (w *writerZ) charset(c *Column) (t string) {
	if w.is(3) {
		c.charset = w.one("utf8", "utf8mb4", "latin1", "binary")
		t += w.word(" character set ") + c.charset
	}
	if w.is(3) {
		c.collate = w.one("utf8_bin", "utf8mb4_general_ci", "nocase")
		t += w.word(" collate ") + c.collate
	}
	return t
}

func (w *writerZ) columnType(c *Column) string {
	switch w.r.Intn(7) {
	case 0, 1:
		c.typeName = w.one("bit", "tinyint", "smallint", "smallserial", "mediumint", "int", "integer", "serial", "bigint", "bigserial")
		t := w.word(c.typeName)
		l := ""
		l, c.length = w.length()
		t += l
		if w.is(3) {
			c.unsigned = true
			t += w.word(" unsigned")
		}
		if w.is(6) {
			t += w.word(" zerofill")
		}
		return t
	case 2:
		c.typeName = w.one("real", "double precision", "double", "float", "decimal", "numeric", "money", "smallmoney")
		t := w.word(c.typeName)
		c.typeName = strings.ToLower(c.typeName)
		if c.typeName == "money" || c.typeName == "smallmoney" || w.is(2) {
			return t
		}
		if c.typeName == "decimal" || c.typeName == "numeric" {
			if w.is(2) {
				n := 0
				l := ""
				l, n = w.number()
				c.length = intZ(n)
				return t + "(" + l + ")"
			}
		}
		l := ""
		l, c.length, c.scale = w.lengthAndScale()
		return t + l
	case 3:
		c.typeName = w.one("date", "time", "timestamp", "datetime", "datetime2", "datetimeoffset", "smalldatetime", "year", "bool", "boolean")
		t, l := w.word(c.typeName), ""
		if c.typeName == "time" || c.typeName == "timestamp" || c.typeName == "datetime" || c.typeName == "datetimeoffset" {
			l, c.length = w.length()
		}
		if c.typeName == "time" || c.typeName == "timestamp" {
			switch w.r.Intn(3) {
			case 0:
				c.timezone = true
				l += w.word(" with time zone")
			case 1:
				l += w.word(" without time zone")
			}
		}
		return t + l
	case 4:
		c.typeName = w.one("char", "character", "varchar", "nchar", "nvarchar", "character varying")
		t, l := w.word(c.typeName), ""
		l, c.length = w.length()
		return t + l + w.charset(c)
	case 5:
		c.typeName = w.one("text", "tinytext", "mediumtext", "longtext", "citext", "ntext", "blob", "tinyblob", "mediumblob", "longblob",
			"json", "jsonb", "uuid", "binary", "varbinary", "geometry", "point", "linestring", "polygon", "geometrycollection", "multipoint",
			"multilinestring", "multipolygon")
		t, l := w.word(c.typeName), ""
		switch c.typeName {
		case "text", "tinytext", "mediumtext", "longtext", "citext":
			l = w.charset(c)
		case "binary", "varbinary":
			l, c.length = w.length()
		}
		return t + l
	}
	c.typeName = w.one("enum", "set")
	texts := []string{}
	for n := w.r.Intn(4); n >= 0; n-- {
		s := w.one("a", "b", "active", "in progress", "Done", "x,y", "", "it's", "(é)", "\"")
		texts = append(texts, "'"+strings.Replace(s, "'", "''", -1)+"'")
		s = strings.Replace(s, "'", "\\'", -1)
		s = strings.Replace(s, "\"", "\\\"", -1)
		c.enumValues = append(c.enumValues, "'"+s+"'")
	}
	return w.word(c.typeName) + w.space() + "(" + strings.Join(texts, w.space()+","+w.space()) + ")" + w.charset(c)
}

// arrayMark writes the mark of an array; SQL Server reads brackets as quotes.
func (w *writerZ) arrayMark() string {
	if w.mode == GeneratorModeMssql || w.is(3) {
		return w.word(" array")
	}
	return w.one("[]", " []")
}

func (w *writerZ) column(position int) (string, Column) {
	c := Column{position: position}
	text, name := w.name()
	c.name = name
	text += " " + w.columnType(&c)
	if w.is(6) {
		c.array = true
		text += w.arrayMark()
	}
	attributes := []string{}
	add := func(s string) { attributes = append(attributes, s) }
	identity := false
	if w.is(4) {
		identity = true
		if w.mode == GeneratorModeMssql {
			t, start := w.number()
			u, step := w.number()
			c.identity, c.sequence = &Identity{}, &Sequence{StartWith: &start, IncrementBy: &step}
			s := w.word("identity") + "(" + t + "," + w.space() + u + ")"
			if w.is(2) {
				c.identity.notForReplication = true
				s += w.word(" not for replication")
			}
			add(s)
			identity = false
		} else {
			b := w.one("always", "by default")
			c.identity = &Identity{behavior: strings.ToUpper(b)}
			yes := true
			c.notNull = &yes
			s := w.word("generated " + b + " as identity")
			if w.is(2) {
				t := ""
				t, c.sequence = w.sequence()
				s += " (" + t + ")"
			}
			add(s)
		}
	}
	if !identity && w.is(2) {
		yes := w.is(2)
		c.notNull = &yes
		if yes {
			add(w.word("not null"))
		} else {
			add(w.word("null"))
		}
	}
	if w.is(3) {
		t, v := w.defaultValue()
		c.defaultDef = &DefaultDefinition{value: v}
		s := w.word("default")
		switch w.r.Intn(4) {
		case 0:
			s += "(" + t + ")"
		case 1:
			s += " ((" + t + "))"
		default:
			s += " " + t
		}
		if w.is(3) {
			u := ""
			u, c.defaultDef.constraintName = w.name()
			s = w.word("constraint") + " " + u + " " + s
		}
		add(s)
	}
	if w.is(6) {
		t := ""
		t, c.onUpdate = w.timestamp()
		add(w.word("on update") + " " + t)
	}
	if w.is(6) {
		c.autoIncrement = true
		add(w.word(w.one("auto_increment", "autoincrement")))
	}
	switch w.r.Intn(8) {
	case 0:
		c.keyOption = ColumnKeyPrimary
		add(w.word("primary key"))
	case 1:
		c.keyOption = ColumnKeyUniqueKey
		add(w.word("unique key"))
	case 2:
		c.keyOption = ColumnKeyUnique
		add(w.word("unique"))
	case 3:
		c.keyOption = ColumnKey
		add(w.word("key"))
	}
	if w.is(4) {
		c.check = &CheckDefinition{definition: w.condition()}
		s := w.word("check")
		if w.is(4) {
			c.check.notForReplication = true
			s += w.word(" not for replication")
		}
		s += w.space() + "(" + w.space() + c.check.definition + w.space() + ")"
		if w.is(2) {
			c.check.constraintName = plainNamesZ[w.r.Intn(len(plainNamesZ))]
			s = w.word("constraint") + " " + c.check.constraintName + " " + s
		} else if w.is(3) {
			c.checkNoInherit = true
			s += w.word(" no inherit")
		}
		add(s)
	}
	if w.is(6) {
		t := ""
		t, c.references = w.name()
		s := w.word("references") + " " + t
		if w.is(2) {
			t, _ = w.names()
			s += "(" + t + ")"
		}
		add(s)
	}
	if w.is(8) {
		t, _ := w.str()
		add(w.word("comment") + " " + t)
	}
	w.r.Shuffle(len(attributes), func(i, j int) { attributes[i], attributes[j] = attributes[j], attributes[i] })
	for _, a := range attributes {
		text += w.one(" ", " ", "\n\t", "  ") + a
	}
	return text, c
}

func (w *writerZ) sequence() (string, *Sequence) {
	s, texts := &Sequence{}, []string{}
	if w.is(2) {
		t, n := w.number()
		s.StartWith = &n
		texts = append(texts, w.word(w.one("start", "start with"))+" "+t)
	}
	if w.is(2) {
		t, n := w.number()
		s.IncrementBy = &n
		texts = append(texts, w.word(w.one("increment", "increment by"))+" "+t)
	}
	switch w.r.Intn(3) {
	case 0:
		t, n := w.number()
		s.MinValue = &n
		texts = append(texts, w.word("minvalue")+" "+t)
	case 1:
		s.NoMinValue = true
		texts = append(texts, w.word("no minvalue"))
	}
	switch w.r.Intn(3) {
	case 0:
		t, n := w.number()
		s.MaxValue = &n
		texts = append(texts, w.word("maxvalue")+" "+t)
	case 1:
		s.NoMaxValue = true
		texts = append(texts, w.word("no maxvalue"))
	}
	if w.is(2) {
		t, n := w.number()
		s.Cache = &n
		texts = append(texts, w.word("cache")+" "+t)
	}
	switch w.r.Intn(3) {
	case 0:
		s.Cycle = true
		texts = append(texts, w.word("cycle"))
	case 1:
		s.NoCycle = true
		texts = append(texts, w.word("no cycle"))
	}
	switch w.r.Intn(4) {
	case 0:
		s.OwnedBy = "NONE"
		texts = append(texts, w.word("owned by none"))
	case 1:
		t, table := w.name()
		u, column := w.name()
		s.OwnedBy = table + "." + column
		texts = append(texts, w.word("owned by")+" "+t+"."+u)
	}
	w.r.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
	return strings.Join(texts, " "), s
}

func (w *writerZ) indexColumns() (string, []IndexColumn) {
	texts, columns := []string{}, []IndexColumn{}
	for n := w.r.Intn(3); n >= 0; n-- {
		t, name := w.name()
		c := IndexColumn{column: name, direction: AscScr}
		if w.is(3) {
			l, length := w.number()
			c.length = &length
			t += w.space() + "(" + l + ")"
		}
		switch w.r.Intn(4) {
		case 0:
			c.direction = DescScr
			t += w.word(" desc")
		case 1:
			t += w.word(" asc")
		}
		texts, columns = append(texts, t), append(columns, c)
	}
	return "(" + w.space() + strings.Join(texts, w.space()+","+w.space()) + w.space() + ")", columns
}

func (w *writerZ) indexOptions() (text string, options []IndexOption) {
	if w.is(2) {
		return "", nil
	}
	if w.mode == GeneratorModeMssql {
		texts := []string{}
		for n := w.r.Intn(3); n >= 0; n-- {
			o := IndexOption{optionName: w.one("pad_index", "fillfactor", "ignore_dup_key", "statistics_norecompute", "statistics_incremental",
				"allow_row_locks", "allow_page_locks")}
			t := w.word(o.optionName) + w.space() + "=" + w.space()
			if o.optionName == "fillfactor" {
				u, k := w.number()
				o.value = intZ(k)
				t += u
			} else {
				on := w.is(2)
				o.value = boolZ(on)
				t += w.word(map[bool]string{true: "on", false: "off"}[on])
			}
			texts, options = append(texts, t), append(options, o)
		}
		return w.word(" with ") + "(" + strings.Join(texts, w.space()+","+w.space()) + ")", options
	}
	for n := w.r.Intn(3); n >= 0; n-- {
		switch w.r.Intn(4) {
		case 3:
			s := w.one("btree", "hash")
			options = append(options, IndexOption{optionName: "using", value: &Value{valueType: ValueTypeStr, raw: []byte(s), strVal: s}})
			text += w.word(" using " + s)
		case 0:
			t, k := w.number()
			options = append(options, IndexOption{optionName: "key_block_size", value: intZ(k)})
			text += w.word(" key_block_size") + w.one(" ", " = ", "=") + t
		case 1:
			t, s := w.str()
			options = append(options, IndexOption{optionName: "comment", value: &Value{valueType: ValueTypeStr, raw: []byte(s), strVal: s}})
			text += w.word(" comment ") + t
		case 2:
			s := w.one("ngram", "mecab")
			options = append(options, IndexOption{optionName: "parser", value: &Value{valueType: ValueTypeStr, raw: []byte(s), strVal: s}})
			text += w.word(" with parser ") + s
		}
	}
	return text, options
}

func (w *writerZ) partition() (text string, p IndexPartition) {
	if w.mode != GeneratorModeMssql || w.is(2) {
		return "", p
	}
	t := ""
	t, p.partitionName = w.name()
	text = w.word(" on ") + t
	if w.is(2) {
		t, p.column = w.name()
		text += w.space() + "(" + t + ")"
	}
	return text, p
}

func (w *writerZ) clustered() (string, bool) {
	if w.mode == GeneratorModeMssql {
		switch w.r.Intn(3) {
		case 0:
			return w.word(" clustered"), true
		case 1:
			return w.word(" nonclustered"), false
		}
	}
	return "", true
}

// key writes a key inside a table definition.
func (w *writerZ) key() (string, Index) {
	i := Index{}
	text, t := "", ""
	switch w.r.Intn(7) {
	case 0:
		i.name, i.indexType, i.primary, i.unique = "PRIMARY", "primary key", true, true
		text = w.word("primary key")
	case 1:
		t, i.name = w.name()
		c := ""
		c, i.clustered = w.clustered()
		i.indexType, i.primary, i.unique = "primary key", true, true
		text = w.word("constraint") + " " + t + " " + w.word("primary key") + c
	case 2:
		t, i.name = w.name()
		i.indexType = w.one("spatial key", "spatial index")
		text = w.word(i.indexType) + " " + t
	case 3:
		t, i.name = w.name()
		i.indexType = w.one("fulltext", "fulltext key", "fulltext index")
		text = w.word(i.indexType) + " " + t
	case 4:
		t, i.name = w.name()
		i.indexType, i.unique = w.one("unique", "unique key", "unique index"), true
		text = w.word(i.indexType) + " " + t
	case 5:
		t, i.name = w.name()
		c := ""
		c, i.clustered = w.clustered()
		i.indexType = w.one("key", "index")
		text = w.word(i.indexType) + " " + t + c
	case 6:
		t, i.name = w.name()
		c := ""
		c, i.clustered = w.clustered()
		i.indexType, i.unique = w.one("key", "index"), true
		text = w.word(i.indexType) + " " + t + w.word(" unique") + c
	}
	t, i.columns = w.indexColumns()
	text += w.space() + t
	t, i.options = w.indexOptions()
	text += t
	t, i.partition = w.partition()
	return text + t, i
}

func (w *writerZ) foreignKey() (string, ForeignKey) {
	f := ForeignKey{}
	text, t := w.word("constraint"), ""
	if !w.is(5) {
		t, f.constraintName = w.name()
		text += " " + t
	}
	text += w.word(" foreign key")
	if w.is(3) {
		t, f.indexName = w.name()
		text += " " + t
	}
	t, f.indexColumns = w.names()
	text += w.space() + "(" + t + ")"
	t, f.referenceName = w.name()
	text += w.word(" references") + " " + t
	t, f.referenceColumns = w.names()
	text += w.space() + "(" + t + ")"
	actions := []string{}
	if w.is(2) {
		f.onDelete = w.one("RESTRICT", "CASCADE", "SET NULL", "NO ACTION")
		actions = append(actions, w.word(" on delete ")+w.word(f.onDelete))
	}
	if w.is(2) {
		f.onUpdate = w.one("RESTRICT", "CASCADE", "SET NULL", "NO ACTION")
		actions = append(actions, w.word(" on update ")+w.word(f.onUpdate))
	}
	w.r.Shuffle(len(actions), func(i, j int) { actions[i], actions[j] = actions[j], actions[i] })
	text += strings.Join(actions, "")
	if w.is(4) {
		f.notForReplication = true
		text += w.word(" not for replication")
	}
	return text, f
}

func (w *writerZ) createTable() (string, DDL) {
	c := &CreateTable{}
	text, t := w.word("create table ")+w.one("", "", w.word("if not exists ")), ""
	t, c.table.name = w.table()
	text += t + w.space() + "(" + w.space()
	parts := []string{}
	for n := w.r.Intn(5); n >= 0; n-- {
		t, column := w.column(len(c.table.columns))
		parts, c.table.columns = append(parts, t), append(c.table.columns, column)
	}
	for n := w.r.Intn(4); n > 0; n-- {
		if w.is(2) {
			t, index := w.key()
			parts, c.table.indexes = append(parts, t), append(c.table.indexes, index)
		} else {
			t, key := w.foreignKey()
			parts, c.table.foreignKeys = append(parts, t), append(c.table.foreignKeys, key)
		}
	}
	text += strings.Join(parts, w.space()+","+w.space()) + w.space() + ")"
	if w.mode == GeneratorModeMysql && w.is(2) {
		text += w.one(" engine=InnoDB", " ENGINE InnoDB DEFAULT CHARSET=utf8mb4", " comment='x y'", " auto_increment=10")
	}
	c.statement = text
	return text, c
}

func (w *writerZ) createIndex() (string, DDL) {
	c := &CreateIndex{}
	text, t := w.word("create"), ""
	if w.is(2) {
		c.index.unique = true
		text += w.word(" unique")
	}
	t, clustered := w.clustered()
	text += t + w.word(" index ")
	t, c.index.name = w.name()
	text += t
	before := w.mode == GeneratorModeMysql && w.is(3)
	if before {
		text += w.word(" using " + w.one("btree", "hash")) // not in the model
		clustered = false
	}
	text += w.word(" on ")
	t, c.tableName = w.table()
	text += t
	using := w.mode == GeneratorModePostgres && w.is(2)
	if using {
		text += w.word(" using ") + w.one("btree", "gin")
	} else {
		c.index.clustered = clustered
	}
	t, c.index.columns = w.indexColumns()
	text += w.space() + t
	if w.mode == GeneratorModeMssql && w.is(3) {
		t, c.index.included = w.names()
		text += w.word(" include ") + "(" + t + ")"
	}
	if (w.mode == GeneratorModePostgres || w.mode == GeneratorModeSQLite3 || w.mode == GeneratorModeMssql) && w.is(3) {
		c.index.where = w.condition()
		text += w.word(" where ") + w.one(c.index.where, "("+c.index.where+")")
	}
	if w.mode == GeneratorModeMysql || w.mode == GeneratorModeMssql {
		t, c.index.options = w.indexOptions()
		text += t
		if !before {
			t, c.index.partition = w.partition()
			text += t
		}
	}
	c.statement = text
	return text, c
}

func (w *writerZ) alterTable() (string, DDL) {
	switch w.r.Intn(3) {
	case 0:
		a := &AddIndex{}
		text, t := w.word("alter table "), ""
		t, a.tableName = w.table()
		text += t + w.word(" add ")
		if w.is(2) {
			a.index.unique = true
			text += w.word("unique ")
		}
		text += w.word(w.one("index", "key")) + " "
		t, a.index.name = w.name()
		text += t
		t, a.index.columns = w.indexColumns()
		text += w.space() + t
		a.statement = text
		return text, a
	case 1:
		a := &AddPrimaryKey{}
		text, t := w.word("alter table only "), ""
		t, a.tableName = w.table()
		text += t + w.word(" add constraint ")
		t, a.index.name = w.name()
		text += t + w.word(" primary key ")
		t, a.index.columns = w.indexColumns()
		text += t
		a.statement = text
		return text, a
	}
	a := &AddForeignKey{}
	text, t := w.word("alter table only "), ""
	t, a.tableName = w.table()
	text += t + w.word(" add ")
	t, a.foreignKey = w.foreignKey()
	text += t
	a.statement = text
	return text, a
}

func (w *writerZ) policy() (string, DDL) {
	a := &AddPolicy{}
	text, t := w.word("create policy "), ""
	t, a.policy.name = w.name()
	text += t + w.word(" on ")
	t, a.tableName = w.table()
	text += t
	if w.is(2) {
		a.policy.permissive = w.one("permissive", "restrictive")
		text += w.word(" as " + a.policy.permissive)
	}
	if w.is(2) {
		a.policy.scope = w.one("all", "select", "insert", "update", "delete")
		text += w.word(" for " + a.policy.scope)
	}
	t, a.policy.roles = w.names()
	text += w.word(" to ") + t
	if w.is(2) {
		a.policy.using = w.condition()
		text += w.word(" using ") + a.policy.using
	}
	if w.is(2) {
		a.policy.withCheck = w.condition()
		text += w.word(" with check ") + a.policy.withCheck
	}
	a.statement = text
	return text, a
}

func (w *writerZ) view() (string, DDL) {
	v := &View{}
	text, t := w.word("create "+w.one("view", "or replace view"))+" ", ""
	t, v.name = w.name()
	v.name = strings.ToLower(v.name) // see viewNamesAreKept
	v.definition = w.selectOf(2)
	if w.is(4) {
		v.definition = "select a from t" + w.one(" union ", " union all ", " union distinct ") + "select b from u"
	}
	text += t + w.word(" as ") + v.definition
	v.statement = text
	return text, v
}

func (w *writerZ) trigger() (string, DDL) {
	g := &Trigger{}
	text, t := w.word("create trigger "), ""
	t, g.name = w.name()
	text += t
	g.time, g.event = w.one("before", "after"), w.one("insert", "update", "delete")
	if w.is(2) {
		text += " " + w.word(g.time+" "+g.event) + w.word(" on ")
		t, g.tableName = w.name()
		text += t + w.word(" for each row ")
		g.body = []string{w.body()}
		text += g.body[0]
	} else {
		text += w.word(" on ")
		t, g.tableName = w.name()
		text += t + " " + w.word(g.time+" "+g.event) + w.word(" as")
		for n := w.r.Intn(3); n >= 0; n-- {
			b := w.body()
			g.body = append(g.body, b)
			text += "\n" + b
		}
	}
	g.statement = text
	return text, g
}

func (w *writerZ) statement() (string, DDL) {
	switch w.r.Intn(9) {
	case 0:
		return w.createIndex()
	case 1:
		return w.alterTable()
	case 2:
		return w.policy()
	case 3:
		return w.view()
	case 4:
		return w.trigger()
	}
	return w.createTable()
}

// The name of a view is read as it is written.
//
//@ bounded
//@ prop C20
func viewNamesAreKept() {
	lowered := false
	for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
		for _, name := range []string{"a", "view_users", "v1", "Users", "orderItems", "X"} {
			zz.Beat(name)
			got, err := parseDDLs(m, "create view "+name+" as select a from t")
			if err != nil || len(got) != 1 {
				zz.Fail("a view is read", "mode %d, view %q: %v", m, name, err)
				continue
			}
			v, ok := got[0].(*View)
			if !ok || strings.ToLower(v.name) != strings.ToLower(name) {
				zz.Fail("the name of a view is read", "mode %d, view %q: %+v", m, name, got[0])
			} else if v.name != name && v.name == strings.ToLower(name) {
				lowered = true
			} else if v.name != name {
				zz.Fail("the name of a view is read", "mode %d, view %q: %q", m, name, v.name)
			}
		}
	}
	if lowered {
		zz.Fail("capitals in the name of a view are kept", "create view Users as select a from t: the name is read as \"users\"")
	}
}

// A literal is read as it is written, whatever it looks like.
//
//@ bounded
//@ prop C20
func literalsAreKept() {
	semicolon, comment := false, false
	for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
		for _, s := range []string{"x", "", "--x", "/* x */", "# x", "x -- y", "x\n- y", "//", "(", "x;y", "x\n--y"} {
			zz.Beat(s)
			got, err := parseDDLs(m, "create table t (a text default '"+s+"')")
			read := false
			if err == nil && len(got) == 1 {
				c, ok := got[0].(*CreateTable)
				read = ok && len(c.table.columns) == 1 && c.table.columns[0].defaultDef != nil && c.table.columns[0].defaultDef.value != nil &&
					c.table.columns[0].defaultDef.value.strVal == s
			}
			switch {
			case read:
			case strings.Contains(s, ";"):
				semicolon = true
			case strings.Contains(s, "\n--"):
				comment = true
			default:
				zz.Fail("a literal is read", "mode %d, literal %q: %v", m, s, err)
			}
		}
	}
	if semicolon && comment {
		zz.Fail("semicolons and lines with two dashes in literals are kept", "default 'x;y' is cut in two, default 'x\\n--y' is read as 'x\\n'")
	} else if semicolon {
		zz.Fail("semicolons in literals are kept", "default 'x;y' is cut in two")
	} else if comment {
		zz.Fail("lines with two dashes in literals are kept", "default 'x\\n--y' is read as 'x\\n'")
	}
}

// A statement that is cut short or has something left over is an error, and so is one of a kind that the tool does not
// convert; what was read before it is not taken for the whole.
//
//@ bounded
//@ prop C20 C11
func brokenTextsAreErrors() {
	r := rand.New(rand.NewSource(zz.Seed))
	for n := 0; n < 100; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			w := &writerZ{r: r, mode: m}
			broken := ""
			text, _ := w.statement()
			switch r.Intn(4) {
			case 0:
				broken = text + w.one(" )", ")", "\n) ,", " ,", " (", " (a", " create table t (a int)")
			case 1:
				if i := strings.LastIndex(text, ")"); i >= 0 && i == len(text)-1 {
					broken = text[:i]
				}
			case 2:
				broken = w.one("drop table a", "alter table a add column b int", "create database a", "insert into a values (1)", "select 1", "truncate table a",
					"update a set b = 1", "delete from a", "rename table a to b", "create table", "create index", "create", "x", "create table a", "create table a (b int", "begin", "set a = 1", "show tables", "(", ")", "'", "`a")
			case 3:
				if i := strings.Index(text, "("); i >= 0 {
					broken = text[:i+1]
				}
			}
			if broken == "" {
				continue
			}
			before, after := "", ""
			if r.Intn(2) == 0 {
				t, _ := w.statement()
				before = t + ";\n"
			}
			if r.Intn(2) == 0 {
				t, _ := w.statement()
				after = ";\n" + t
			}
			zz.Beat(before + broken + after)
			if got, err := parseDDLs(m, before+broken+after); err == nil {
				zz.Fail("a broken statement is an error", "mode %d, text %q: %d statements", m, broken, len(got))
			}
		}
	}
}

// Whatever two schemas are given, planning ends with a plan or an error.
//
//@ bounded
//@ prop C11
func plansAreMade() {
	r := rand.New(rand.NewSource(zz.Seed))
	for n := 0; n < 300; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			w := &writerZ{r: r, mode: m}
			some := func() string {
				texts := []string{}
				for k := r.Intn(5); k > 0; k-- {
					t, _ := w.statement()
					texts = append(texts, t)
				}
				return strings.Join(texts, ";\n")
			}
			desired, current := some(), ""
			tables := map[string]bool{}
			for k := r.Intn(4); k > 0; k-- {
				t, d := w.createTable()
				if name := d.(*CreateTable).table.name; !tables[name] {
					tables[name] = true
					current += t + ";\n"
				}
			}
			zz.Beat(desired + "\x00" + current)
			func() {
				defer func() {
					if e := recover(); e != nil {
						zz.Fail("a plan is made without a crash", "mode %d, desired %q, current %q: %v\n%s", m, desired, current, e, debug.Stack())
					}
				}()
				GenerateIdempotentDDLs(m, desired, current)
			}()
		}
	}
}

// A definition that is written for a column, read again, is the column: all but what is stated elsewhere or not at all
// (primary keys, names of constraints, comments, references).
//
//@ bounded
//@ prop C02 C03
func columnDefinitionsReadBack() {
	r := rand.New(rand.NewSource(zz.Seed))
	for n := 0; n < 300; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			w := &writerZ{r: r, mode: m}
			text, c := w.column(0)
			if c.keyOption == ColumnKey {
				continue // an error
			}
			if c.array && (m != GeneratorModePostgres || c.unsigned || c.charset != "" || c.collate != "") {
				continue // no database has these
			}
			if no := c.notNull != nil && !*c.notNull; no && (c.keyOption == ColumnKeyPrimary || c.identity != nil) {
				continue // contradictory
			}
			zz.Beat(text)
			g := &Generator{mode: m}
			def, err := g.generateColumnDefinition(c, true)
			if err != nil {
				if c.defaultDef == nil || c.defaultDef.value.valueType != ValueTypeBool {
					zz.Fail("the definition of a column is written", "mode %d, column %q: %v", m, text, err)
				}
				continue
			}
			got, err := parseDDLs(m, "create table t ("+def+")")
			if err != nil || len(got) != 1 {
				zz.Fail("the definition of a column can be read", "mode %d, column %q: %q: %v", m, text, def, err)
				continue
			}
			t, ok := got[0].(*CreateTable)
			if !ok || len(t.table.columns) != 1 {
				zz.Fail("the definition of a column is one column", "mode %d, column %q: %q", m, text, def)
				continue
			}
			yes := true
			if c.keyOption == ColumnKeyPrimary {
				c.keyOption, c.notNull = ColumnKeyNone, &yes
			}
			if m == GeneratorModeMssql && c.identity != nil && c.notNull != nil && *c.notNull {
				c.notNull = nil
			}
			if c.check != nil {
				c.check.constraintName = ""
			}
			if c.defaultDef != nil {
				c.defaultDef.constraintName = ""
			}
			c.references = ""
			if c.sequence != nil {
				c.sequence.OwnedBy = "" // the sequence of an identity column is owned by the column
			}
			if d := differenceZ(reflect.ValueOf(t.table.columns[0]), reflect.ValueOf(c), ""); d != "" {
				zz.Fail("the definition of a column reads as the column", "mode %d, column %q: %q: %s", m, text, def, d)
			}
		}
	}
}

// Keys and foreign keys that are written, read again, are the same keys.
//
//@ bounded
//@ prop C04 C05
func keysReadBack() {
	r := rand.New(rand.NewSource(zz.Seed))
	read := func(m GeneratorMode, what, text string) *Table {
		got, err := parseDDLs(m, text)
		if err == nil && len(got) == 1 {
			if t, ok := got[0].(*CreateTable); ok {
				return &t.table
			}
			if t, ok := got[0].(*CreateIndex); ok {
				return &Table{indexes: []Index{t.index}}
			}
		}
		zz.Fail("the definition of a key can be read", "mode %d, key %q: %q: %v", m, what, text, err)
		return nil
	}
	for n := 0; n < 300; n++ {
		for m := GeneratorModeMysql; m <= GeneratorModeMssql; m++ {
			w := &writerZ{r: r, mode: m}
			g := &Generator{mode: m}
			text, f := w.foreignKey()
			zz.Beat(text)
			if f.constraintName != "" {
				def := g.generateForeignKeyDefinition(f)
				if t := read(m, text, "create table t (id int, "+def+")"); t != nil {
					if d := differenceZ(reflect.ValueOf(t.foreignKeys), reflect.ValueOf([]ForeignKey{f}), ""); d != "" {
						zz.Fail("the definition of a foreign key reads as the foreign key", "mode %d, key %q: %q: %s", m, text, def, d)
					}
				}
			}
			if m != GeneratorModeMysql && m != GeneratorModeMssql {
				continue
			}
			text, i := w.key()
			zz.Beat(text)
			if m == GeneratorModeMssql && i.name == "PRIMARY" {
				continue // the parser does not read the kind of a primary key that has no name
			}
			def := g.generateAddIndex("t", i)
			if p := g.escapeTableName("t"); strings.HasPrefix(def, "ALTER TABLE "+p+" ADD ") {
				def = "create table " + p + " (id int, " + def[len("ALTER TABLE "+p+" ADD "):] + ")"
			}
			if m == GeneratorModeMssql && i.primary {
				i.partition = IndexPartition{} // only CREATE INDEX states it
			} else if m == GeneratorModeMssql {
				i.indexType = "" // CREATE INDEX
			} else if i.primary {
				i.name, i.clustered = "PRIMARY", false // as MySQL names it
			} else if i.unique && !strings.HasPrefix(i.indexType, "unique") {
				continue // KEY x UNIQUE is of SQL Server
			}
			if t := read(m, text, def); t != nil {
				if d := differenceZ(reflect.ValueOf(t.indexes), reflect.ValueOf([]Index{i}), ""); d != "" {
					zz.Fail("the definition of a key reads as the key", "mode %d, key %q: %q: %s", m, text, def, d)
				}
			}
		}
	}
}
