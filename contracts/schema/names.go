package schema

import (
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// quoteZ is the quoting rule of each dialect.
func quoteZ(m GeneratorMode, name string) string {
	if m == GeneratorModePostgres {
		return "\"" + strings.Replace(name, "\"", "\"\"", -1) + "\""
	}
	if m == GeneratorModeMssql {
		return "[" + strings.Replace(name, "]", "]]", -1) + "]"
	}
	return "`" + strings.Replace(name, "`", "``", -1) + "`"
}

//@ spec Generator.escapeSQLName
//@ prop C01
func escapeSQLNameZ(g *Generator, name string) string {
	return quoteZ(g.mode, name)
}

// The schema of a PostgreSQL or SQL Server table is always written.
//
//@ spec Generator.escapeTableName
//@ prop C01
//@ reveal tableZ
func escapeTableNameZ(g *Generator, name string) string { return tableZ(g.mode, name) }

// tableZ is a table name with its schema.
//
//@ opaque
func tableZ(m GeneratorMode, name string) string {
	def := ""
	if m == GeneratorModePostgres {
		def = "public"
	} else if m == GeneratorModeMssql {
		def = "dbo"
	} else {
		return quoteZ(m, name)
	}
	parts := strings.SplitN(name, ".", 2)
	if len(parts) == 1 {
		return quoteZ(m, def) + "." + quoteZ(m, parts[0])
	}
	return quoteZ(m, parts[0]) + "." + quoteZ(m, parts[1])
}
