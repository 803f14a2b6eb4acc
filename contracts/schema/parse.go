package schema

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec castBool
//@ prop C20
func castBoolZ(v sqlparser.BoolVal) bool { return bool(v) }

//@ spec castBoolPtr
//@ prop C20
func castBoolPtrZ(v *sqlparser.BoolVal) *bool {
	if v == nil {
		return nil
	}
	b := bool(*v)
	return &b
}

// A literal keeps its kind and its text; what is derived from the text is read from it.
//
//@ spec parseValue
//@ prop C20 C02 C03
func parseValueZ(v *sqlparser.SQLVal) *Value {
	if v == nil {
		return nil
	}
	switch v.Type {
	case sqlparser.StrVal:
		return &Value{valueType: ValueTypeStr, raw: v.Val, strVal: string(v.Val)}
	case sqlparser.IntVal:
		n, _ := strconv.Atoi(string(v.Val))
		return &Value{valueType: ValueTypeInt, raw: v.Val, intVal: n}
	case sqlparser.FloatVal:
		f, _ := strconv.ParseFloat(string(v.Val), 64)
		return &Value{valueType: ValueTypeFloat, raw: v.Val, floatVal: f}
	case sqlparser.HexNum:
		return &Value{valueType: ValueTypeHexNum, raw: v.Val}
	case sqlparser.HexVal:
		return &Value{valueType: ValueTypeHex, raw: v.Val}
	case sqlparser.ValArg:
		return &Value{valueType: ValueTypeValArg, raw: v.Val}
	case sqlparser.BitVal:
		return &Value{valueType: ValueTypeBit, raw: v.Val, bitVal: string(v.Val) == "1"}
	case sqlparser.ValBool:
		return &Value{valueType: ValueTypeBool, raw: v.Val}
	}
	return nil
}

//@ spec parseLength
//@ prop C20
func parseLengthZ(v *sqlparser.SQLVal) (*int, error) {
	if v == nil {
		return nil, nil
	}
	if v.Type != sqlparser.IntVal {
		return nil, fmt.Errorf("not a number")
	}
	n, err := strconv.Atoi(string(v.Val))
	if err != nil {
		return nil, err
	}
	return &n, nil
}

//@ spec parseIdentity
//@ prop C20
func parseIdentityZ(o *sqlparser.IdentityOpt) *Identity {
	if o == nil {
		return nil
	}
	return &Identity{behavior: strings.ToUpper(o.Behavior), notForReplication: o.NotForReplication}
}

//@ spec parseDefaultDefinition
//@ prop C20 C03
func parseDefaultDefinitionZ(o *sqlparser.DefaultDefinition) *DefaultDefinition {
	if o == nil || o.Value == nil {
		return nil
	}
	return &DefaultDefinition{constraintName: o.ConstraintName.String(), value: parseValueZ(o.Value)}
}

// numberZ is the number of a sequence option, nil if it is not given.
func numberZ(v *sqlparser.SQLVal) *int {
	if v == nil {
		return nil
	}
	zz.Requires(v.Type == sqlparser.IntVal)
	n, _ := strconv.Atoi(string(v.Val))
	return &n
}

//@ spec parseIdentitySequence
//@ prop C20
func parseIdentitySequenceZ(o *sqlparser.IdentityOpt) *Sequence {
	if o == nil || o.Sequence == nil {
		return nil
	}
	s := o.Sequence
	return &Sequence{
		Name:        s.Name,
		IfNotExists: s.IfNotExists,
		Type:        s.Type,
		IncrementBy: numberZ(s.IncrementBy),
		MinValue:    numberZ(s.MinValue),
		NoMinValue:  s.NoMinValue != nil,
		MaxValue:    numberZ(s.MaxValue),
		NoMaxValue:  s.NoMaxValue != nil,
		StartWith:   numberZ(s.StartWith),
		Cache:       numberZ(s.Cache),
		Cycle:       s.Cycle != nil,
		NoCycle:     s.NoCycle != nil,
		OwnedBy:     s.OwnedBy,
	}
}

// The character set of a table is what follows "charset=" in its options.
//
//@ spec detectCharset
//@ prop C20
func detectCharsetZ(t sqlparser.TableSpec) string {
	options := strings.Split(t.Options, " ")
	for i := range options {
		if strings.HasPrefix(options[i], "charset=") {
			return strings.TrimPrefix(options[i], "charset=")
		}
	}
	return ""
}

//@ spec normalizeCollate
//@ prop C20
func normalizeCollateZ(collate string, t sqlparser.TableSpec) string {
	if collate == "binary" {
		return detectCharsetZ(t) + "_bin"
	}
	return collate
}

// A PostgreSQL table is in the schema public unless it says otherwise.
//
//@ spec normalizedTableName
//@ prop C20
func normalizedTableNameZ(m GeneratorMode, n sqlparser.TableName) string {
	if m != GeneratorModePostgres {
		return n.Name.String()
	}
	if n.Qualifier.String() == "" {
		return "public." + n.Name.String()
	}
	return n.Qualifier.String() + "." + n.Name.String()
}

func keyOptionZ(k sqlparser.ColumnKeyOption) ColumnKeyOption {
	switch k {
	case sqlparser.ZZKeyPrimary:
		return ColumnKeyPrimary
	case sqlparser.ZZKeySpatialKey:
		return ColumnKeySpatialKey
	case sqlparser.ZZKeyUnique:
		return ColumnKeyUnique
	case sqlparser.ZZKeyUniqueKey:
		return ColumnKeyUniqueKey
	case sqlparser.ZZKey:
		return ColumnKey
	}
	zz.Requires(k == sqlparser.ZZKeyNone)
	return ColumnKeyNone
}

func checkOfZ(c *sqlparser.CheckDefinition) *CheckDefinition {
	if c == nil {
		return nil
	}
	return &CheckDefinition{
		definition:        sqlparser.String(c.Where.Expr),
		constraintName:    sqlparser.String(c.ConstraintName),
		notForReplication: c.NotForReplication,
	}
}

func indexColumnsOfZ(cs []sqlparser.IndexColumn) ([]IndexColumn, error) {
	r := []IndexColumn{}
	for i := range cs {
		n, err := parseLengthZ(cs[i].Length)
		if err != nil {
			return nil, err
		}
		r = append(r, IndexColumn{column: cs[i].Column.String(), length: n, direction: cs[i].Direction})
	}
	return r, nil
}

func indexOptionsOfZ(os []*sqlparser.IndexOption) []IndexOption {
	r := []IndexOption{}
	for i := range os {
		v := parseValueZ(os[i].Value)
		if os[i].Using != "" {
			u := strings.ToLower(os[i].Using)
			v = &Value{valueType: ValueTypeStr, raw: []byte(u), strVal: u}
		}
		r = append(r, IndexOption{optionName: os[i].Name, value: v})
	}
	return r
}

func partitionOfZ(p *sqlparser.IndexPartition) IndexPartition {
	if p == nil {
		return IndexPartition{}
	}
	return IndexPartition{partitionName: p.Name, column: p.Column}
}

func namesOfZ(cs []sqlparser.ColIdent) []string {
	r := []string{}
	for i := range cs {
		r = append(r, cs[i].String())
	}
	return r
}

func foreignKeyOfZ(f *sqlparser.ForeignKeyDefinition) ForeignKey {
	return ForeignKey{
		constraintName:    f.ConstraintName.String(),
		indexName:         f.IndexName.String(),
		indexColumns:      namesOfZ(f.IndexColumns),
		referenceName:     f.ReferenceName.String(),
		referenceColumns:  namesOfZ(f.ReferenceColumns),
		onDelete:          f.OnDelete.String(),
		onUpdate:          f.OnUpdate.String(),
		notForReplication: f.NotForReplication,
	}
}

func optionsCompleteZ(os []*sqlparser.IndexOption) bool {
	for i := range os {
		if os[i] == nil {
			return false
		}
	}
	return true
}

// completeZ: the lists of a parsed table have no missing entries.
func completeZ(t *sqlparser.TableSpec) bool {
	for i := range t.Columns {
		if t.Columns[i] == nil {
			return false
		}
	}
	for i := range t.Indexes {
		if t.Indexes[i] == nil || t.Indexes[i].Info == nil || !optionsCompleteZ(t.Indexes[i].Options) {
			return false
		}
	}
	for i := range t.ForeignKeys {
		if t.ForeignKeys[i] == nil {
			return false
		}
	}
	return true
}

// Every column, index and foreign key of the statement, in order and with every attribute.
//
//@ spec parseTable
//@ prop C20
//@ pure sqlparser.String
//@ pure sqlparser.ParseStrictDDLWithMode
//@ lockstep
func parseTableZ(m GeneratorMode, s *sqlparser.DDL) (Table, error) {
	zz.Requires(s != nil && s.TableSpec != nil)
	zz.Requires(completeZ(s.TableSpec))
	columns := []Column{}
	for i, c := range s.TableSpec.Columns {
		t := c.Type
		columns = append(columns, Column{
			name:           c.Name.String(),
			position:       i,
			typeName:       t.Type,
			unsigned:       bool(t.Unsigned),
			notNull:        castBoolPtrZ(t.NotNull),
			autoIncrement:  bool(t.Autoincrement),
			array:          bool(t.Array),
			defaultDef:     parseDefaultDefinitionZ(t.Default),
			length:         parseValueZ(t.Length),
			scale:          parseValueZ(t.Scale),
			check:          checkOfZ(t.Check),
			checkNoInherit: bool(t.CheckNoInherit),
			charset:        t.Charset,
			collate:        normalizeCollateZ(t.Collate, *s.TableSpec),
			timezone:       bool(t.Timezone),
			keyOption:      keyOptionZ(t.KeyOpt),
			onUpdate:       parseValueZ(t.OnUpdate),
			enumValues:     t.EnumValues,
			references:     t.References,
			identity:       parseIdentityZ(t.Identity),
			sequence:       parseIdentitySequenceZ(t.Identity),
		})
	}
	indexes := []Index{}
	for _, x := range s.TableSpec.Indexes {
		cs, err := indexColumnsOfZ(x.Columns)
		if err != nil {
			return Table{}, err
		}
		indexes = append(indexes, Index{
			name:      x.Info.Name.String(),
			indexType: x.Info.Type,
			columns:   cs,
			primary:   x.Info.Primary,
			unique:    x.Info.Unique,
			clustered: bool(x.Info.Clustered),
			options:   indexOptionsOfZ(x.Options),
			partition: partitionOfZ(x.Partition),
		})
	}
	foreignKeys := []ForeignKey{}
	for _, f := range s.TableSpec.ForeignKeys {
		foreignKeys = append(foreignKeys, foreignKeyOfZ(f))
	}
	return Table{
		name:        normalizedTableNameZ(m, s.NewName),
		columns:     columns,
		indexes:     indexes,
		foreignKeys: foreignKeys,
	}, nil
}

//@ spec parseIndex
//@ prop C20
//@ pure sqlparser.String
//@ pure sqlparser.ParseStrictDDLWithMode
func parseIndexZ(s *sqlparser.DDL) (Index, error) {
	zz.Requires(s != nil)
	if s.IndexSpec == nil {
		return Index{}, fmt.Errorf("no index")
	}
	x := s.IndexSpec
	zz.Requires(optionsCompleteZ(x.Options))
	cs, err := indexColumnsOfZ(s.IndexCols)
	if err != nil {
		return Index{}, err
	}
	where := ""
	if x.Where != nil && x.Where.Type == "where" {
		if p, ok := x.Where.Expr.(*sqlparser.ParenExpr); ok {
			zz.Requires(p != nil)
			where = sqlparser.String(p.Expr)
		} else {
			where = sqlparser.String(x.Where.Expr)
		}
	}
	return Index{
		name:      x.Name.String(),
		columns:   cs,
		unique:    x.Unique,
		clustered: x.Clustered,
		where:     where,
		included:  namesOfZ(x.Included),
		options:   indexOptionsOfZ(x.Options),
		partition: partitionOfZ(x.Partition),
	}, nil
}

func parserModeZ(m GeneratorMode) sqlparser.ParserMode {
	switch m {
	case GeneratorModeMysql:
		return sqlparser.ParserModeMysql
	case GeneratorModePostgres:
		return sqlparser.ParserModePostgres
	case GeneratorModeSQLite3:
		return sqlparser.ParserModeSQLite3
	}
	zz.Requires(m == GeneratorModeMssql)
	return sqlparser.ParserModeMssql
}

func whereTextZ(w *sqlparser.Where) string {
	if w == nil {
		return ""
	}
	return sqlparser.String(w.Expr)
}

// Each kind of statement becomes the definition of its kind, with the text of the statement; any other kind is an
// error.
//
//@ spec parseDDL
//@ seed create table users (id int)
//@ seed create table users (id bigint unsigned not null auto_increment primary key, name varchar(20) collate utf8_bin default 'a', key k (name(5) desc)) charset=utf8mb4
//@ seed create table users (name varchar(20) character set latin1 collate binary)
//@ seed create table users (id int) engine=innodb charset=latin1
//@ seed create table a.users (id serial, n numeric(10,2) default 1.5 check (n > 0), t timestamp with time zone, arr int[] not null)
//@ seed create table users (id int unique, b bool default true, c text null, r int references posts(id))
//@ seed create table users (id int identity(1,1) not for replication, v nvarchar(20) constraint d default 3)
//@ seed create table users (id int, constraint pk primary key clustered (id desc) with (pad_index = on))
//@ seed create table users (id int, constraint fk foreign key fi (id, b) references posts (x, y) on delete cascade on update set null)
//@ seed create table users (id int, constraint fk foreign key (id) references posts (x) on delete no action not for replication)
//@ seed create table users (id bigint not null generated by default as identity (increment by 2 minvalue 1 start with 5))
//@ seed create table users (e enum('a','b'), b bit(1) default b'1', t timestamp default current_timestamp on update current_timestamp)
//@ seed create index i on users (name, id desc)
//@ seed create unique index i on a.users using btree (name) where (age > 3)
//@ seed create unique clustered index i on users (name desc) include (x, y) with (fillfactor = 80, pad_index = on) on p(c)
//@ seed alter table users add index i (name(3), id)
//@ seed alter table users add unique key i (name)
//@ seed alter table only users add constraint pk primary key (id, name)
//@ seed alter table only a.users add constraint pk primary key (id)
//@ seed alter table only users add constraint foreign key fi (id, b) references posts (x, y)
//@ seed alter table only users add constraint fk foreign key (id) references posts (x) on delete set null on update cascade
//@ seed alter table only users add constraint fk foreign key (id) references posts (x) on delete cascade not for replication
//@ seed create policy p on users as restrictive for select to public, bob using (a = 1) with check (b > 2)
//@ seed create policy p on a.users for all to bob using (true)
//@ seed create view v as select a, b from users where a = 1
//@ seed create view a.v as select 1
//@ seed create trigger t after insert on users for each row insert into log values (1)
//@ seed drop table users
//@ seed alter table users drop column a
//@ seed select 1
//@ seed create table
//@ prop C20
//@ cases m 0 1 2 3
//@ pure schema.parseTable
//@ pure schema.parseIndex
//@ pure sqlparser.String
//@ pure sqlparser.ParseStrictDDLWithMode
func parseDDLZ(m GeneratorMode, ddl string) (DDL, error) {
	stmt, err := sqlparser.ParseStrictDDLWithMode(ddl, parserModeZ(m))
	if err != nil {
		return nil, err
	}
	s, ok := stmt.(*sqlparser.DDL)
	if !ok {
		return nil, fmt.Errorf("not a definition")
	}
	zz.Requires(s != nil)
	switch s.Action {
	case "create":
		t, err := parseTable(m, s)
		if err != nil {
			return nil, err
		}
		return &CreateTable{statement: ddl, table: t}, nil
	case "create index":
		x, err := parseIndex(s)
		if err != nil {
			return nil, err
		}
		return &CreateIndex{statement: ddl, tableName: normalizedTableNameZ(m, s.Table), index: x}, nil
	case "add index":
		x, err := parseIndex(s)
		if err != nil {
			return nil, err
		}
		return &AddIndex{statement: ddl, tableName: normalizedTableNameZ(m, s.Table), index: x}, nil
	case "add primary key":
		x, err := parseIndex(s)
		if err != nil {
			return nil, err
		}
		return &AddPrimaryKey{statement: ddl, tableName: normalizedTableNameZ(m, s.Table), index: x}, nil
	case "add foreign key":
		zz.Requires(s.ForeignKey != nil)
		return &AddForeignKey{statement: ddl, tableName: normalizedTableNameZ(m, s.Table), foreignKey: foreignKeyOfZ(s.ForeignKey)}, nil
	case "create policy":
		zz.Requires(s.Policy != nil)
		return &AddPolicy{
			statement: ddl,
			tableName: normalizedTableNameZ(m, s.Table),
			policy: Policy{
				name:       s.Policy.Name.String(),
				permissive: string(s.Policy.Permissive),
				scope:      string(s.Policy.Scope),
				roles:      namesOfZ(s.Policy.To),
				using:      whereTextZ(s.Policy.Using),
				withCheck:  whereTextZ(s.Policy.WithCheck),
			},
		}, nil
	case "create view":
		zz.Requires(s.View != nil)
		return &View{statement: ddl, name: s.View.Name.Name.String(), definition: sqlparser.String(s.View.Definition)}, nil
	case "create trigger":
		zz.Requires(s.Trigger != nil)
		body := []string{}
		for i := range s.Trigger.Body {
			body = append(body, sqlparser.String(s.Trigger.Body[i]))
		}
		return &Trigger{
			statement: ddl,
			name:      s.Trigger.Name.String(),
			tableName: s.Trigger.TableName.Name.String(),
			time:      s.Trigger.Time,
			event:     s.Trigger.Event,
			body:      body,
		}, nil
	}
	return nil, fmt.Errorf("unsupported kind of definition")
}

// Every statement of the text, in order; the text ends at each ";".
//
//@ spec parseDDLs
//@ prop C20
//@ pure schema.parseDDL
func parseDDLsZ(m GeneratorMode, text string) ([]DDL, error) {
	parts := strings.Split(regexp.MustCompilePOSIX("^--.*").ReplaceAllString(text, ""), ";")
	r := []DDL{}
	for i := range parts {
		part := strings.TrimSpace(parts[i])
		if part != "" {
			d, err := parseDDL(m, part)
			if err != nil {
				return r, err
			}
			r = append(r, d)
		}
	}
	return r, nil
}
