package postgres

import (
	"database/sql"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/adapter"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec PostgresDatabase.TableNames
//@ prop C17
//@ lockstep
func pgTableNamesZ(d *PostgresDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("select table_schema, table_name from information_schema.tables where table_schema not in ('information_schema', 'pg_catalog') and (table_schema != 'public' or table_name != 'pg_buffercache') and table_type = 'BASE TABLE';")
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		r = append(r, a+"."+b)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// viewTextZ: the definition on one line, without the closing semicolon and without runs of blanks.
func viewTextZ(s string) string {
	s = strings.ReplaceAll(strings.TrimSpace(s), "\n", "")
	return regexp.MustCompile("[ ]+").ReplaceAllString(strings.TrimSuffix(s, ";"), " ")
}

//@ spec PostgresDatabase.Views
//@ prop C17
//@ lockstep
func pgViewsZ(d *PostgresDatabase) ([]string, error) {
	zz.Requires(d != nil)
	rows, err := d.db.Query("select table_schema, table_name, definition from information_schema.tables inner join pg_views on table_name = viewname where table_schema not in ('information_schema', 'pg_catalog') and (table_schema != 'public' or table_name != 'pg_buffercache') and table_type = 'VIEW';")
	if err != nil {
		return nil, err
	}
	var r []string
	for rows.Next() {
		var a, b, c string
		if err := rows.Scan(&a, &b, &c); err != nil {
			return nil, err
		}
		r = append(r, "CREATE VIEW "+a+"."+b+" AS "+viewTextZ(c))
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec PostgresDatabase.Triggers
//@ prop C17
func pgTriggersZ(d *PostgresDatabase) ([]string, error) {
	return nil, nil
}

//@ spec splitTableName
//@ prop C17 C18
func pgSplitTableNameZ(table string) (string, string) {
	i := strings.Index(table, ".")
	if i < 0 {
		return "public", table
	}
	return table[:i], table[i+1:]
}

// The parts of the definition come from the catalog; the first failure is the result.
//
//@ spec PostgresDatabase.DumpTableDDL
//@ prop C17 C18
//@ external (*adapter/postgres.PostgresDatabase).getColumns
//@ external (*adapter/postgres.PostgresDatabase).getPrimaryKeyColumns
//@ external (*adapter/postgres.PostgresDatabase).getIndexDefs
//@ external (*adapter/postgres.PostgresDatabase).getForeginDefs
//@ external (*adapter/postgres.PostgresDatabase).getPolicyDefs
func pgDumpTableDDLZ(d *PostgresDatabase, table string) (string, error) {
	zz.Requires(d != nil)
	cs, err := d.getColumns(table)
	if err != nil {
		return "", err
	}
	ks, err := d.getPrimaryKeyColumns(table)
	if err != nil {
		return "", err
	}
	is, err := d.getIndexDefs(table)
	if err != nil {
		return "", err
	}
	fs, err := d.getForeginDefs(table)
	if err != nil {
		return "", err
	}
	ps, err := d.getPolicyDefs(table)
	if err != nil {
		return "", err
	}
	return buildDumpTableDDL(table, cs, ks, is, fs, ps), nil
}

// pgTypeZ: the declared type of a column; an automatically numbered one has a serial type.
//
//@ spec column.GetDataType
//@ prop C18
func pgTypeZ(c *column) string {
	zz.Requires(c != nil)
	t := c.dataType
	if c.IsAutoIncrement && t == "smallint" {
		return "smallserial"
	}
	if c.IsAutoIncrement && t == "integer" {
		return "serial"
	}
	if c.IsAutoIncrement && t == "bigint" {
		return "bigserial"
	}
	if t == "timestamp without time zone" {
		return "timestamp"
	}
	if t == "time without time zone" {
		return "time"
	}
	return t
}

// pgColumnZ is the definition of a column: everything the catalog says about it.
func pgColumnZ(c column) string {
	s := "\"" + c.Name + "\" " + pgTypeZ(&c)
	if c.Length > 0 {
		s += "(" + strconv.Itoa(c.Length) + ")"
	}
	if c.IsUnique {
		s += " UNIQUE"
	}
	if !c.Nullable {
		s += " NOT NULL"
	}
	if !c.IsAutoIncrement && c.Default != "" {
		s += " DEFAULT " + c.Default
	}
	if c.IdentityGeneration != "" {
		s += " GENERATED " + c.IdentityGeneration + " AS IDENTITY"
	}
	if c.Check != "" {
		s += " " + c.Check
	}
	return s
}

//@ spec buildDumpTableDDL
//@ prop C18
func pgBuildZ(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
	s := ""
	for i := range columns {
		if i > 0 {
			s += ","
		}
		s += "\n    " + pgColumnZ(columns[i])
	}
	if len(pkeyCols) > 0 {
		s += ",\n    PRIMARY KEY (\"" + strings.Join(pkeyCols, "\", \"") + "\")"
	}
	s = "CREATE TABLE " + table + " (" + s + "\n);\n"
	for i := range indexDefs {
		s += indexDefs[i] + ";\n"
	}
	for i := range foreginDefs {
		s += foreginDefs[i] + ";\n"
	}
	for i := range policyDefs {
		s += policyDefs[i] + ";\n"
	}
	return strings.TrimSuffix(s, ";\n")
}

//@ spec PostgresDatabase.getColumns
//@ prop C17 C18
//@ lockstep
func pgGetColumnsZ(d *PostgresDatabase, table string) ([]column, error) {
	zz.Requires(d != nil)
	schema, name := pgSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length, CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END, CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey, CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check, s.identity_generation FROM pg_attribute f JOIN pg_class c ON c.oid = f.attrelid JOIN pg_type t ON t.oid = f.atttypid LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = f.attnum LEFT JOIN pg_namespace n ON n.oid = c.relnamespace LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u' LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c' LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;", schema, name)
	if err != nil {
		return nil, err
	}
	r := []column{}
	for rows.Next() {
		var col, nullable, typ string
		var length, def, check, idGen *string
		var unique bool
		if err := rows.Scan(&col, &def, &nullable, &length, &typ, &unique, &check, &idGen); err != nil {
			return nil, err
		}
		c := column{Name: strings.Trim(col, "\" "), dataType: typ, Nullable: nullable == "YES", IsUnique: unique}
		if length != nil {
			n, err := strconv.Atoi(*length)
			if err != nil {
				return nil, err
			}
			c.Length = n
		}
		if def != nil {
			c.Default = *def
			c.IsAutoIncrement = strings.HasPrefix(*def, "nextval(")
		}
		if check != nil {
			c.Check = *check
		}
		if idGen != nil {
			c.IdentityGeneration = *idGen
		}
		r = append(r, c)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// The index of the primary key (PostgreSQL names it ..._pkey) is part of the table; every other one is listed.
//
//@ spec PostgresDatabase.getIndexDefs
//@ prop C17 C18
//@ lockstep
func pgGetIndexDefsZ(d *PostgresDatabase, table string) ([]string, error) {
	zz.Requires(d != nil)
	schema, name := pgSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2", schema, name)
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			return nil, err
		}
		if !strings.HasSuffix(strings.Trim(a, "\" "), "_pkey") {
			r = append(r, b)
		}
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec PostgresDatabase.getPrimaryKeyColumns
//@ prop C17 C18
//@ lockstep
func pgGetPrimaryKeyColumnsZ(d *PostgresDatabase, table string) ([]string, error) {
	zz.Requires(d != nil)
	schema, name := pgSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name FROM information_schema.table_constraints AS tc JOIN information_schema.key_column_usage AS kcu ON tc.constraint_name = kcu.constraint_name WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position", schema, name)
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var a, b, c, e string
		if err := rows.Scan(&a, &b, &c, &e); err != nil {
			return nil, err
		}
		r = append(r, e)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec PostgresDatabase.getForeginDefs
//@ prop C17 C18
//@ lockstep
func pgGetForeginDefsZ(d *PostgresDatabase, table string) ([]string, error) {
	zz.Requires(d != nil)
	schema, name := pgSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name, ccu.table_schema AS foreign_table_schema, ccu.table_name AS foreign_table_name, ccu.column_name AS foreign_column_name, rc.update_rule AS foreign_update_rule, rc.delete_rule AS foreign_delete_rule FROM information_schema.table_constraints AS tc JOIN information_schema.key_column_usage AS kcu ON tc.constraint_name = kcu.constraint_name JOIN information_schema.constraint_column_usage AS ccu ON tc.constraint_name = ccu.constraint_name JOIN information_schema.referential_constraints AS rc ON tc.constraint_name = rc.constraint_name WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2", schema, name)
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var sch, con, tab, col, fsch, ftab, fcol, upd, del string
		if err := rows.Scan(&sch, &con, &tab, &col, &fsch, &ftab, &fcol, &upd, &del); err != nil {
			return nil, err
		}
		r = append(r, "ALTER TABLE ONLY "+sch+"."+tab+" ADD CONSTRAINT "+con+" FOREIGN KEY ("+col+") REFERENCES "+fsch+"."+ftab+"("+fcol+") ON UPDATE "+upd+" ON DELETE "+del)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

//@ spec PostgresDatabase.getPolicyDefs
//@ prop C17 C18
//@ lockstep
func pgGetPolicyDefsZ(d *PostgresDatabase, table string) ([]string, error) {
	zz.Requires(d != nil)
	schema, name := pgSplitTableNameZ(table)
	rows, err := d.db.Query("SELECT policyname, permissive, roles, cmd, qual, with_check FROM pg_policies WHERE schemaname = $1 AND tablename = $2;", schema, name)
	if err != nil {
		return nil, err
	}
	r := []string{}
	for rows.Next() {
		var pol, perm, roles, cmd string
		var using, check sql.NullString
		if err := rows.Scan(&pol, &perm, &roles, &cmd, &using, &check); err != nil {
			return nil, err
		}
		s := "CREATE POLICY " + pol + " ON " + name + " AS " + perm + " FOR " + cmd + " TO " + strings.TrimSuffix(strings.TrimPrefix(roles, "{"), "}")
		if using.Valid {
			s += " USING " + using.String
		}
		if check.Valid {
			s += " WITH CHECK " + check.String
		}
		r = append(r, s)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return r, nil
}

// The connection string denotes exactly the configured settings.
//
//@ spec postgresBuildDSN
//@ prop C19
func postgresBuildDSNZ(config adapter.Config) string {
	q := url.Values{}
	u := url.URL{Scheme: "postgres", User: url.UserPassword(config.User, config.Password), Path: "/" + config.DbName}
	if config.Socket == "" {
		u.Host = config.Host + ":" + strconv.Itoa(config.Port)
	} else {
		q.Set("host", config.Socket)
		q.Set("port", strconv.Itoa(config.Port))
	}
	if v, ok := os.LookupEnv("PGSSLMODE"); ok {
		q.Set("sslmode", v)
	}
	if v, ok := os.LookupEnv("PGSSLROOTCERT"); ok {
		q.Set("sslrootcert", v)
	}
	u.RawQuery = q.Encode()
	return u.String()
}
