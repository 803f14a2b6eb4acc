T = '''package %s

import (
%s	"testing"
)

%s
'''
def t(path, pkg, imports, body):
    return (path, T % (pkg, ''.join('\t"%s"\n' % i for i in imports), body))
VAL='sqlparser/dependency/sqltypes/value.go'
FAKE='''
type fakeDB struct{ db *sql.DB }

func (f *fakeDB) TableNames() ([]string, error)        { return nil, nil }
func (f *fakeDB) DumpTableDDL(string) (string, error)  { return "", nil }
func (f *fakeDB) Views() ([]string, error)             { return nil, nil }
func (f *fakeDB) Triggers() ([]string, error)          { return nil, nil }
func (f *fakeDB) DB() *sql.DB                          { return f.db }
func (f *fakeDB) Close() error                         { return nil }

var log_ []string
var failOn string

type drv struct{}
type conn struct{}
type tx struct{}

func (drv) Open(string) (driver.Conn, error)             { return conn{}, nil }
func (conn) Prepare(q string) (driver.Stmt, error)       { return nil, errors.New("not used") }
func (conn) Close() error                                { return nil }
func (conn) Begin() (driver.Tx, error)                   { log_ = append(log_, "begin"); return tx{}, nil }
func (tx) Commit() error                                 { log_ = append(log_, "commit"); return nil }
func (tx) Rollback() error                               { log_ = append(log_, "rollback"); return nil }
func (conn) Exec(q string, _ []driver.Value) (driver.Result, error) {
	log_ = append(log_, q)
	if q == failOn {
		return nil, errors.New("failed: " + q)
	}
	return driver.ResultNoRows, nil
}

func open() *fakeDB {
	sql.Register("seededfake", drv{})
	db, err := sql.Open("seededfake", "")
	if err != nil {
		panic(err)
	}
	return &fakeDB{db}
}
'''
FI=['database/sql','database/sql/driver','errors','strings']
BUGS = [
 dict(id='c14-rollback-error', property='C14', needs='a statement of the plan that fails while the rollback succeeds',
  breaks='A failed statement is reported as success: the error of the rollback is returned instead of the error of the statement.',
  edits=[('adapter/database.go','''			transaction.Rollback()
			return err
''','''			return transaction.Rollback()
''')],
  test=t('adapter/zz_seeded_test.go','adapter',FI,FAKE+'''
func TestSeededDemo(t *testing.T) {
	failOn = "B"
	err := RunDDLs(open(), []string{"A", "B", "C"}, false)
	if got := strings.Join(log_, " "); err == nil || got != "begin A B rollback" {
		t.Fatalf("error %v after %s", err, got)
	}
}
''')),
 dict(id='c13-drop-column', property='C13', needs='skip-drop with a plan that drops a column or an index with ALTER TABLE',
  breaks='With skip-drop, ALTER TABLE ... DROP statements are executed, because only statements that begin with DROP are skipped.',
  edits=[('adapter/database.go','''if skipDrop && strings.Contains(ddl, "DROP") {''','''if skipDrop && strings.HasPrefix(ddl, "DROP ") {'''),('adapter/database.go','''	"fmt"
	"strings"''','''	"fmt"
	"strings"''')][:1],
  test=t('adapter/zz_seeded_test.go','adapter',FI,FAKE+'''
func TestSeededDemo(t *testing.T) {
	err := RunDDLs(open(), []string{"A", "ALTER TABLE t DROP COLUMN c", "DROP TABLE u", "B"}, true)
	if got := strings.Join(log_, " "); err != nil || got != "begin A B commit" {
		t.Fatalf("error %v after %s", err, got)
	}
}
''')),
 dict(id='c12-dry-run-skip-drop', property='C12', needs='dry run and skip-drop requested together',
  breaks='Dry run with skip-drop executes the plan.',
  edits=[('sqldef.go','''	if options.DryRun {
		showDDLs(ddls, options.SkipDrop)
		return
	}

	err = adapter.RunDDLs(db, ddls, options.SkipDrop)
''','''	switch {
	case options.SkipDrop:
		err = adapter.RunDDLs(db, ddls, true)
	case options.DryRun:
		showDDLs(ddls, false)
	default:
		err = adapter.RunDDLs(db, ddls, false)
	}
''')],
  test=t('zz_seeded_test.go','sqldef',FI+['io/ioutil','path/filepath','github.com/k0kubun/sqldef/schema'],FAKE+'''
func TestSeededDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.sql")
	if err := ioutil.WriteFile(f, []byte("create table t (a int);"), 0600); err != nil {
		t.Fatal(err)
	}
	Run(schema.GeneratorModeMysql, open(), &Options{SqlFile: f, DryRun: true, SkipDrop: true})
	if len(log_) > 0 {
		t.Fatal("dry run executed " + strings.Join(log_, " "))
	}
}
''')),
 dict(id='c16-trigger-error', property='C16', needs='a database whose trigger listing fails',
  breaks='A failure to list the triggers is hidden; the dump is reported as complete without them.',
  edits=[('adapter/database.go','''	triggerDDLs, err := d.Triggers()
	if err != nil {
		return "", err
	}
	ddls = append(ddls, triggerDDLs...)
''','''	if triggerDDLs, err := d.Triggers(); err == nil {
		ddls = append(ddls, triggerDDLs...)
	}
''')],
  test=t('adapter/zz_seeded_test.go','adapter',['database/sql','errors'],'''
type fakeDB struct{}

func (f *fakeDB) TableNames() ([]string, error)       { return []string{"t"}, nil }
func (f *fakeDB) DumpTableDDL(string) (string, error) { return "CREATE TABLE t (a int)", nil }
func (f *fakeDB) Views() ([]string, error)            { return nil, nil }
func (f *fakeDB) Triggers() ([]string, error)         { return nil, errors.New("no right to see triggers") }
func (f *fakeDB) DB() *sql.DB                         { return nil }
func (f *fakeDB) Close() error                        { return nil }

func TestSeededDemo(t *testing.T) {
	if s, err := DumpDDLs(&fakeDB{}); err == nil {
		t.Fatalf("no error, dump %q", s)
	}
}
''')),
 dict(id='c18-unique-clustered', property='C18', needs='a SQL Server table with a unique clustered index that is not its primary key',
  breaks='The dump of a unique clustered index of SQL Server loses CLUSTERED.',
  edits=[('adapter/mssql/mssql.go','''			fmt.Fprint(&queryBuilder, " UNIQUE")
		}
		if indexDef.indexType ==''','''			fmt.Fprint(&queryBuilder, " UNIQUE")
		} else if indexDef.indexType ==''')],
  test=t('adapter/mssql/zz_seeded_test.go','mssql',['strings'],'''
func TestSeededDemo(t *testing.T) {
	s := buildDumpTableDDL("dbo.t", []column{{Name: "a", dataType: "int"}}, []*indexDef{{name: "i", columns: []string{"[a]"}, unique: true, indexType: "CLUSTERED"}}, nil)
	if !strings.Contains(s, "CREATE UNIQUE CLUSTERED INDEX [i] ON dbo.t ([a])") {
		t.Fatal(s)
	}
}
''')),
 dict(id='c19-mysql-blank-password', property='C19', needs='a MySQL password that begins or ends with a blank',
  breaks='Blanks at the ends of the MySQL password are lost on the way to the connection string.',
  edits=[('adapter/mysql/mysql.go','''	c.Passwd = config.Password''','''	c.Passwd = strings.TrimSpace(config.Password)''')],
  test=('adapter/mysql/zz_seeded_test.go','''package mysql

import (
	"testing"

	driver "github.com/go-sql-driver/mysql"
	"github.com/k0kubun/sqldef/adapter"
)

func TestSeededDemo(t *testing.T) {
	c, err := driver.ParseDSN(mysqlBuildDSN(adapter.Config{User: "u", Password: " p w ", Host: "h", Port: 1, DbName: "d"}))
	if err != nil || c.Passwd != " p w " || c.User != "u" || c.Addr != "h:1" || c.DBName != "d" {
		t.Fatalf("%+v %v", c, err)
	}
}
''')),
 dict(id='c20-fk-replication', property='C20', needs='SQL Server: a foreign key added by its own ALTER TABLE statement with NOT FOR REPLICATION',
  breaks='NOT FOR REPLICATION of a foreign key declared with ALTER TABLE is lost when the statement is converted.',
  edits=[('schema/parser.go','''					onUpdate:          stmt.ForeignKey.OnUpdate.String(),
					notForReplication: stmt.ForeignKey.NotForReplication,
				},
			}, nil''','''					onUpdate:          stmt.ForeignKey.OnUpdate.String(),
				},
			}, nil''')],
  test=t('schema/zz_seeded_test.go','schema',[],'''
func TestSeededDemo(t *testing.T) {
	ddls, err := parseDDLs(GeneratorModeMssql, "ALTER TABLE ONLY t ADD CONSTRAINT f FOREIGN KEY (a) REFERENCES u (b) NOT FOR REPLICATION;")
	if err != nil || len(ddls) != 1 {
		t.Fatal(ddls, err)
	}
	if fk, ok := ddls[0].(*AddForeignKey); !ok || !fk.foreignKey.notForReplication || fk.foreignKey.constraintName != "f" {
		t.Fatalf("%+v", ddls[0])
	}
}
''')),
 dict(id='c22-nul-byte', property='C22', needs='a value with a NUL byte',
  breaks='A NUL byte in a string literal is read back as the digit 0.',
  edits=[('sqlparser/token.go','''decodedChar == sqltypes.DontEscape {''','''decodedChar == sqltypes.DontEscape || decodedChar == 0 {''')],
  test=t('sqlparser/zz_seeded_test.go','sqlparser',['bytes','github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes'],'''
func TestSeededDemo(t *testing.T) {
	for _, s := range []string{"a\\x00b", "a\\nb", "it's"} {
		b := &bytes.Buffer{}
		sqltypes.NewVarBinary(s).EncodeSQL(b)
		typ, v := NewStringTokenizer(b.String(), ParserModeMysql).Scan()
		if typ != STRING || string(v) != s {
			t.Fatalf("%q as %q, read back %q", s, b.String(), v)
		}
	}
}
''')),
 dict(id='c23-short-comment', property='C23', needs='a leading comment whose text begins with a slash, as /*/ x */',
  breaks='The end of a leading comment that begins with /*/ is found inside its opening, so that the rest of the comment becomes part of the statement.',
  edits=[('sqlparser/comments.go','''		commentLength := 4 + strings.Index(remainingText[2:], "*/")
		if commentLength < 4 {''','''		commentLength := 3 + strings.Index(remainingText[1:], "*/")
		if commentLength < 3 {''')],
  test=t('sqlparser/zz_seeded_test.go','sqlparser',[],'''
func TestSeededDemo(t *testing.T) {
	for _, s := range []string{"/*/ x */ select 1", "/* x */ select 1", "/**/ select 1"} {
		if q, c := SplitMarginComments(s); q != "select 1" {
			t.Fatalf("%q: %q %+v", s, q, c)
		}
	}
}
''')),
 dict(id='c24-decimal-text', property='C24', needs='a DECIMAL value with a text that is no number',
  breaks='Any text is accepted as a DECIMAL value, because decimals count as quoted text.',
  edits=[(VAL,'''	case IsFloat(typ) || typ == Decimal:
		if''','''	case IsFloat(typ):
		if'''),(VAL,'''	case IsQuoted(typ) || typ == Null:
		return''','''	case IsQuoted(typ) || typ == Decimal || typ == Null:
		return''')],
  test=t('sqlparser/dependency/sqltypes/zz_seeded_test.go','sqltypes',[],'''
func TestSeededDemo(t *testing.T) {
	if v, err := NewValue(Decimal, []byte("1.5")); err != nil || v.ToString() != "1.5" {
		t.Fatal(v, err)
	}
	if v, err := NewValue(Decimal, []byte("1.5; drop")); err == nil {
		t.Fatal(v)
	}
}
''')),
 dict(id='c25-tuple-one', property='C25', needs='a list bind variable with exactly one value that is NULL',
  breaks='A list of one NULL is substituted as nothing inside the parentheses.',
  edits=[('sqlparser/parsed_query.go','''		sqltypes.ProtoToValue(bv).EncodeSQL(buf)
''','''		if v := sqltypes.ProtoToValue(bv); len(value.Values) > 1 || !v.IsNull() {
			v.EncodeSQL(buf)
		}
''')],
  test=t('sqlparser/zz_seeded_test.go','sqlparser',['github.com/k0kubun/sqldef/sqlparser/dependency/querypb'],'''
func TestSeededDemo(t *testing.T) {
	p := &ParsedQuery{Query: "select * from a where id in ::ids", bindLocations: []bindLocation{{offset: 28, length: 5}}}
	null, one := &querypb.Value{Type: querypb.Type_NULL_TYPE}, &querypb.Value{Type: querypb.Type_INT64, Value: []byte("1")}
	for want, vs := range map[string][]*querypb.Value{"(1)": {one}, "(null, 1)": {null, one}, "(null)": {null}} {
		q, err := p.GenerateQuery(map[string]*querypb.BindVariable{"ids": {Type: querypb.Type_TUPLE, Values: vs}}, nil)
		if err != nil || string(q) != "select * from a where id in "+want {
			t.Fatal(string(q), err)
		}
	}
}
''')),
]
