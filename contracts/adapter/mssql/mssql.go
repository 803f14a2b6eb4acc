package mssql

import (
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec MssqlDatabase.TableNames
//@ prop C17
//@ lockstep
func msTableNamesZ(d *MssqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("select schema_name(schema_id) as table_schema, name from sys.objects where type = 'U';")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		r = append(r, a+"."+b)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// msViewTextZ: the definition on one line, without the closing semicolon and without runs of blanks.
func msViewTextZ(s string) string {
	s = strings.ReplaceAll(strings.TrimSpace(s), "\n", "")
	return regexp.MustCompile("[ ]+").ReplaceAllString(strings.TrimSuffix(s, ";"), " ")
}

//@ spec MssqlDatabase.Views
//@ prop C17
//@ lockstep
func msViewsZ(d *MssqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("SELECT sys.views.name as name, sys.sql_modules.definition as definition FROM sys.views INNER JOIN sys.objects ON sys.objects.object_id = sys.views.object_id INNER JOIN sys.schemas ON sys.schemas.schema_id = sys.objects.schema_id INNER JOIN sys.sql_modules ON sys.sql_modules.object_id = sys.objects.object_id")
	if err != nil {
		return nil, err
	}
	var r []string
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		r = append(r, msViewTextZ(b))
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec MssqlDatabase.Triggers
//@ prop C17
//@ lockstep
func msTriggersZ(d *MssqlDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("SELECT s.definition FROM sys.triggers tr INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a string
		if err := rows.Scan(&a); err != nil {
			return nil, err
		}
		r = append(r, a)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec splitTableName
//@ prop C17 C18
func msSplitTableNameZ(table string) (string, string) {
	i := strings.Index(table, ".")
	if i < 0 {
		return "dbo", table
	}
	return table[:i], table[i+1:]
}

//@ spec boolToOnOff
//@ prop C18
func onOffZ(in bool) string {
	if !in {
		return "OFF"
	}
	return "ON"
}

//@ spec MssqlDatabase.DumpTableDDL
//@ prop C17 C18
//@ external (*adapter/mssql.MssqlDatabase).getColumns
//@ external (*adapter/mssql.MssqlDatabase).getIndexDefs
//@ external (*adapter/mssql.MssqlDatabase).getForeignDefs
func msDumpTableDDLZ(d *MssqlDatabase, table string) (string, error) {
	zz.Requires(d != nil)
	cs, err := d.getColumns(table)
	if err != nil {
		return "", err
	}
	is, err := d.getIndexDefs(table)
	if err != nil {
		return "", err
	}
	fs, err := d.getForeignDefs(table)
	if err != nil {
		return "", err
	}
	for i := range is {
		zz.Requires(is[i] != nil)
	}
	return buildDumpTableDDL(table, cs, is, fs), nil
}

// notForReplicationZ: the option as it is written.
func notForReplicationZ(on bool) string {
	if on {
		return " NOT FOR REPLICATION"
	}
	return ""
}

// msColumnZ is the definition of a column: everything the catalog says about it.
func msColumnZ(c column) string {
	s := c.Name + " " + c.dataType
	if c.dataType == "char" || c.dataType == "varchar" || c.dataType == "binary" || c.dataType == "varbinary" {
		s += "(" + c.Length + ")"
	}
	if !c.Nullable {
		s += " NOT NULL"
	}
	if c.DefaultName != "" {
		s += " CONSTRAINT " + c.DefaultName + " DEFAULT " + c.DefaultVal
	}
	if i := c.Identity; i != nil {
		s += " IDENTITY(" + i.SeedValue + "," + i.IncrementValue + ")" + notForReplicationZ(i.NotForReplication)
	}
	if k := c.Check; k != nil {
		s += " CONSTRAINT [" + k.Name + "] CHECK" + notForReplicationZ(k.NotForReplication) + " " + k.Definition
	}
	return s
}

// clusteredZ: whether the index is clustered is part of its definition.
func clusteredZ(x *indexDef) string {
	if x.indexType == "CLUSTERED" || x.indexType == "NONCLUSTERED" {
		return " " + x.indexType
	}
	return ""
}

func optionsZ(os []indexOption) string {
	if len(os) == 0 {
		return ""
	}
	s := ""
	for i := range os {
		if i > 0 {
			s += ","
		}
		s += " " + os[i].name + " = " + os[i].value
	}
	return " WITH (" + s + " )"
}

func msIndexZ(x *indexDef, table string) string {
	s := "CREATE"
	if x.unique {
		s += " UNIQUE"
	}
	s += clusteredZ(x) + " INDEX [" + x.name + "] ON " + table + " (" + strings.Join(x.columns, ", ") + ")"
	if len(x.included) > 0 {
		s += " INCLUDE (" + strings.Join(x.included, ", ") + ")"
	}
	return s + optionsZ(x.options)
}

//@ spec buildDumpTableDDL
//@ prop C18
func msBuildZ(table string, columns []column, indexDefs []*indexDef, foreignDefs []string) string {
	for i := range indexDefs {
		zz.Requires(indexDefs[i] != nil)
	}
	s := "CREATE TABLE " + table + " ("
	for i := range columns {
		if i > 0 {
			s += ","
		}
		s += "\n    " + msColumnZ(columns[i])
	}
	for i := range indexDefs {
		if x := indexDefs[i]; x.primary {
			s += ",\n    CONSTRAINT [" + x.name + "] PRIMARY KEY" + clusteredZ(x) + " (" + strings.Join(x.columns, ", ") + ")" + optionsZ(x.options)
		}
	}
	for i := range foreignDefs {
		s += ",\n    " + foreignDefs[i]
	}
	s += "\n);\n"
	for i := range indexDefs {
		if x := indexDefs[i]; !x.primary {
			s += msIndexZ(x, table) + ";\n"
		}
	}
	return strings.TrimSuffix(s, ";\n")
}

//@ spec MssqlDatabase.getColumns
//@ prop C17 C18
//@ lockstep
func msGetColumnsZ(d *MssqlDatabase, table string) ([]column, error) {
	zz.Requires(d != nil)
	schema, name := msSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT c.name, [type_name] = tp.name, c.max_length, c.is_nullable, c.is_identity, ic.seed_value, ic.increment_value, ic.is_not_for_replication, c.default_object_id, default_name = OBJECT_NAME(c.default_object_id), default_definition = OBJECT_DEFINITION(c.default_object_id), cc.name, cc.definition, cc.is_not_for_replication FROM sys.columns c WITH(NOLOCK) JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id] WHERE c.[object_id] = OBJECT_ID('" + schema + "." + name + "', 'U')")
	if err != nil {
		return nil, err
	}
	r := []column{}
	for rows.Next() {
		var col, typ, length, defID string
		var seed, inc, defName, def, checkName, text *string
		var nullable, isIdentity bool
		var idRepl, checkRepl *bool
		if err := rows.Scan(&col, &typ, &length, &nullable, &isIdentity, &seed, &inc, &idRepl, &defID, &defName, &def, &checkName, &text, &checkRepl); err != nil {
			return nil, err
		}
		c := column{Name: col, dataType: typ, Length: length, Nullable: nullable}
		if defID != "0" {
			zz.Requires(defName != nil && def != nil)
			c.DefaultName, c.DefaultVal = *defName, *def
		}
		if isIdentity {
			zz.Requires(seed != nil && inc != nil && idRepl != nil)
			c.Identity = &identity{*seed, *inc, *idRepl}
		}
		if checkName != nil {
			zz.Requires(text != nil && checkRepl != nil)
			c.Check = &check{*checkName, *text, *checkRepl}
		}
		r = append(r, c)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec MssqlDatabase.getIndexDefs
//@ prop C17 C18
//@ lockstep
func msGetIndexDefsZ(d *MssqlDatabase, table string) ([]*indexDef, error) {
	zz.Requires(d != nil)
	schema, name := msSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT ind.name AS index_name, ind.is_primary_key, ind.is_unique, ind.type_desc, ind.is_padded, ind.fill_factor, ind.ignore_dup_key, st.no_recompute, st.is_incremental, ind.allow_row_locks, ind.allow_page_locks FROM sys.indexes ind INNER JOIN sys.stats st ON ind.object_id = st.object_id AND ind.index_id = st.stats_id WHERE ind.object_id = OBJECT_ID('[" + schema + "].[" + name + "]')")
	if err != nil {
		return nil, err
	}
	r := []*indexDef{}
	byName := map[string]*indexDef{}
	for rows.Next() {
		var index, typ, fill string
		var primary, unique, pad, dup, recompute, incremental, rowLocks, pageLocks bool
		if err := rows.Scan(&index, &primary, &unique, &typ, &pad, &fill, &dup, &recompute, &incremental, &rowLocks, &pageLocks); err != nil {
			return nil, err
		}
		x := indexDef{name: index, primary: primary, unique: unique, indexType: typ}
		x.options = []indexOption{{"PAD_INDEX", onOffZ(pad)}, {"FILLFACTOR", fill}, {"IGNORE_DUP_KEY", onOffZ(dup)}, {"STATISTICS_NORECOMPUTE", onOffZ(recompute)},
			{"STATISTICS_INCREMENTAL", onOffZ(incremental)}, {"ALLOW_ROW_LOCKS", onOffZ(rowLocks)}, {"ALLOW_PAGE_LOCKS", onOffZ(pageLocks)}}
		x.columns, x.included = []string{}, []string{}
		r = append(r, &x)
		byName[index] = &x
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	rows, err = d.db.Query("SELECT ind.name AS index_name, COL_NAME(ic.object_id, ic.column_id) AS column_name, ic.is_descending_key, ic.is_included_column FROM sys.indexes ind INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id WHERE ind.object_id = OBJECT_ID('[" + schema + "].[" + name + "]')")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var index, col string
		var desc, incl bool
		if err := rows.Scan(&index, &col, &desc, &incl); err != nil {
			return nil, err
		}
		x := byName[index]
		zz.Requires(x != nil)
		switch {
		case incl:
			x.included = append(x.included, "["+col+"]")
		case desc:
			x.columns = append(x.columns, "["+col+"] DESC")
		default:
			x.columns = append(x.columns, "["+col+"]")
		}
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec MssqlDatabase.getForeignDefs
//@ prop C17 C18
//@ lockstep
func msGetForeignDefsZ(d *MssqlDatabase, table string) ([]string, error) {
	zz.Requires(d != nil)
	schema, name := msSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT f.name, COL_NAME(f.parent_object_id, fc.parent_column_id), OBJECT_NAME(f.referenced_object_id)_id, COL_NAME(f.referenced_object_id, fc.referenced_column_id), f.update_referential_action_desc, f.delete_referential_action_desc, f.is_not_for_replication FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id WHERE f.parent_object_id = OBJECT_ID('[" + schema + "].[" + name + "]')")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var con, col, ftab, fcol, upd, del string
		var repl bool
		if err := rows.Scan(&con, &col, &ftab, &fcol, &upd, &del, &repl); err != nil {
			return nil, err
		}
		r = append(r, "CONSTRAINT ["+con+"] FOREIGN KEY (["+col+"]) REFERENCES ["+ftab+"] (["+fcol+"]) ON UPDATE "+strings.ReplaceAll(upd, "_", " ")+
			" ON DELETE "+strings.ReplaceAll(del, "_", " ")+notForReplicationZ(repl))
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// The connection string denotes exactly the configured settings.
//
//@ spec mssqlBuildDSN
//@ prop C19
func mssqlBuildDSNZ(config adapter.Config) string {
	q := url.Values{}
	q.Set("database", config.DbName)
	u := url.URL{Scheme: "sqlserver", User: url.UserPassword(config.User, config.Password), Host: config.Host + ":" + strconv.Itoa(config.Port), RawQuery: q.Encode()}
	return u.String()
}
