package schema

import (
	"fmt"
	"strconv"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

//@ opaque
func dataTypeZ(column Column) string {
	t := column.typeName
	if column.length != nil {
		t += "(" + string(column.length.raw)
		if column.scale != nil {
			t += ", " + string(column.scale.raw)
		}
		t += ")"
	} else if column.typeName == "enum" || column.typeName == "set" {
		t += "(" + strings.Join(column.enumValues, ", ") + ")"
	}
	if column.timezone {
		t += " WITH TIME ZONE"
	}
	if column.array {
		t += "[]"
	}
	return t
}

//@ spec generateDataType
//@ prop C02
//@ reveal dataTypeZ
func generateDataTypeZ(column Column) string { return dataTypeZ(column) }

// litZ writes a string as a literal that the tokenizer reads back.
func litZ(s string) string {
	s = strings.Replace(s, "\\", "\\\\", -1)
	s = strings.Replace(s, "'", "''", -1)
	return "'" + s + "'"
}

// defaultDefZ is the DEFAULT clause of a literal, or false where there is none.
//
//@ opaque
func defaultDefZ(v Value) (string, bool) {
	if v.valueType == ValueTypeStr {
		return "DEFAULT " + litZ(v.strVal), true
	}
	if v.valueType == ValueTypeInt || v.valueType == ValueTypeFloat || v.valueType == ValueTypeValArg {
		return "DEFAULT " + string(v.raw), true
	}
	if v.valueType == ValueTypeBit {
		return "DEFAULT b'" + string(v.raw) + "'", true
	}
	return "", false
}

//@ spec generateDefaultDefinition
//@ prop C03
//@ reveal defaultDefZ
func generateDefaultDefinitionZ(defaultVal Value) (string, error) {
	s, ok := defaultDefZ(defaultVal)
	if !ok {
		return "", fmt.Errorf("unsupported")
	}
	return s, nil
}

func numZ(label string, p *int) string {
	if p == nil {
		return ""
	}
	return label + " " + strconv.Itoa(*p) + " "
}

func flagZ(label string, b bool) string {
	if b {
		return label + " "
	}
	return ""
}

//@ opaque
func sequenceZ(s *Sequence) string {
	r := ""
	if s == nil {
		return r
	}
	if s.Name != "" {
		r = "SEQUENCE NAME " + s.Name + " "
	}
	r += numZ("START WITH", s.StartWith)
	r += numZ("INCREMENT BY", s.IncrementBy)
	r += numZ("MINVALUE", s.MinValue)
	r += flagZ("NO MINVALUE", s.NoMinValue)
	r += numZ("MAXVALUE", s.MaxValue)
	r += flagZ("NO MAXVALUE", s.NoMaxValue)
	r += numZ("CACHE", s.Cache)
	r += flagZ("CYCLE", s.Cycle)
	r += flagZ("NO CYCLE", s.NoCycle)
	return strings.TrimSpace(r)
}

//@ spec generateSequenceClause
//@ prop C02
//@ reveal sequenceZ
func generateSequenceClauseZ(sequence *Sequence) string {
	zz.Requires(sequence != nil)
	return sequenceZ(sequence)
}

func valueAtZ(p *int) int {
	if p == nil {
		return 0
	}
	return *p
}

// columnDefZ is the definition of a column, clause by clause.
//
//@ opaque
func columnDefZ(m GeneratorMode, c Column, enableUnique bool) (string, bool) {
	d := quoteZ(m, c.name) + " " + dataTypeZ(c) + " "
	d += flagZ("UNSIGNED", c.unsigned)
	if c.charset != "" {
		d += "CHARACTER SET " + c.charset + " "
	}
	if c.collate != "" {
		d += "COLLATE " + c.collate + " "
	}
	// a primary key column and one declared so are NOT NULL, which an identity column is anyway
	notNull := c.notNull != nil && *c.notNull
	null := c.notNull != nil && !*c.notNull
	if c.identity == nil && (notNull || c.keyOption == ColumnKeyPrimary) {
		d += "NOT NULL "
	} else if null {
		d += "NULL "
	}
	if c.defaultDef != nil && c.defaultDef.value != nil {
		def, ok := defaultDefZ(*c.defaultDef.value)
		if !ok {
			return "", false
		}
		d += def + " "
	}
	d += flagZ("AUTO_INCREMENT", c.autoIncrement)
	if c.onUpdate != nil {
		d += "ON UPDATE " + string(c.onUpdate.raw) + " "
	}
	if c.check != nil {
		d += "CHECK "
		d += flagZ("NOT FOR REPLICATION", c.check.notForReplication)
		d += "(" + c.check.definition + ") "
	}
	d += flagZ("NO INHERIT", c.checkNoInherit)
	if c.keyOption == ColumnKeyUnique {
		d += flagZ("UNIQUE", enableUnique)
	} else if c.keyOption == ColumnKeyUniqueKey {
		d += flagZ("UNIQUE KEY", enableUnique)
	} else if c.keyOption != ColumnKeyNone && c.keyOption != ColumnKeyPrimary {
		return "", false
	}
	if c.identity != nil && c.identity.behavior != "" {
		d += "GENERATED " + c.identity.behavior + " AS IDENTITY "
		if c.sequence != nil {
			d += "(" + sequenceZ(c.sequence) + ") "
		}
	} else if m == GeneratorModeMssql && c.sequence != nil {
		d += "IDENTITY(" + strconv.Itoa(valueAtZ(c.sequence.StartWith)) + "," + strconv.Itoa(valueAtZ(c.sequence.IncrementBy)) + ")"
		if c.identity != nil && c.identity.notForReplication {
			d += " NOT FOR REPLICATION"
		}
	}
	return strings.TrimSuffix(d, " "), true
}

//@ spec Generator.generateColumnDefinition
//@ prop C02 C03
//@ reveal columnDefZ
func generateColumnDefinitionZ(g *Generator, column Column, enableUnique bool) (string, error) {
	// an SQL Server identity column states both its seed and its increment
	if g.mode == GeneratorModeMssql && column.sequence != nil && (column.identity == nil || column.identity.behavior == "") {
		zz.Requires(column.identity != nil && column.sequence.StartWith != nil && column.sequence.IncrementBy != nil)
	}
	d, ok := columnDefZ(g.mode, column, enableUnique)
	if !ok {
		return "", fmt.Errorf("unsupported")
	}
	return d, nil
}

func indexColumnsZ(m GeneratorMode, cs []IndexColumn) string {
	r := ""
	for i := range cs {
		if i > 0 {
			r += ", "
		}
		r += quoteZ(m, cs[i].column)
		if cs[i].length != nil {
			r += "(" + strconv.Itoa(*cs[i].length) + ")"
		}
		if cs[i].direction == DescScr {
			r += " desc"
		}
	}
	return r
}

func indexOptionsZ(m GeneratorMode, os []IndexOption) string {
	if len(os) == 0 {
		return ""
	}
	if m == GeneratorModeMysql {
		r := ""
		for i := range os {
			if os[i].optionName == "parser" {
				r += " WITH parser " + string(os[i].value.raw)
			} else if os[i].optionName == "comment" {
				r += " comment " + litZ(string(os[i].value.raw))
			} else {
				r += " " + os[i].optionName + " " + string(os[i].value.raw)
			}
		}
		return r
	}
	if m != GeneratorModeMssql {
		return ""
	}
	r := ""
	for i := range os {
		if i > 0 {
			r += ", "
		}
		v := string(os[i].value.raw)
		if os[i].value.valueType == ValueTypeBool {
			if v == "true" {
				v = "ON"
			} else {
				v = "OFF"
			}
		}
		r += os[i].optionName + " = " + v
	}
	return " WITH (" + r + ")"
}

//@ spec Generator.generateIndexOptionDefinition
//@ prop C04
func generateIndexOptionDefinitionZ(g *Generator, indexOptions []IndexOption) string {
	for i := range indexOptions {
		zz.Requires(indexOptions[i].value != nil)
	}
	return indexOptionsZ(g.mode, indexOptions)
}

//@ spec Generator.generateAddIndex
//@ prop C04 C01
//@ reveal addIndexZ
func generateAddIndexZ(g *Generator, table string, index Index) string {
	for i := range index.options {
		zz.Requires(index.options[i].value != nil)
	}
	return addIndexZ(g.mode, table, index)
}

//@ opaque
func addIndexZ(m GeneratorMode, table string, index Index) string {
	t := tableZ(m, table)
	list := " (" + indexColumnsZ(m, index.columns) + ")" + indexOptionsZ(m, index.options)
	if m != GeneratorModeMssql {
		d := "ALTER TABLE " + t + " ADD " + index.indexType
		if !index.primary {
			d += " " + quoteZ(m, index.name)
		}
		return d + list
	}
	clustered := " NONCLUSTERED"
	if index.clustered {
		clustered = " CLUSTERED"
	}
	if index.primary {
		d := "ALTER TABLE " + t + " ADD"
		if index.name != "PRIMARY" {
			d += " CONSTRAINT " + quoteZ(m, index.name)
		}
		return d + " " + index.indexType + clustered + list
	}
	d := "CREATE"
	if index.unique {
		d += " UNIQUE"
	}
	d += clustered + " INDEX " + quoteZ(m, index.name) + " ON " + t + list
	if index.partition.partitionName != "" {
		d += " ON " + quoteZ(m, index.partition.partitionName)
		if index.partition.column != "" {
			d += " (" + quoteZ(m, index.partition.column) + ")"
		}
	}
	return d
}

//@ spec Generator.generateDropIndex
//@ prop C04 C01
//@ reveal dropIndexZ
func generateDropIndexZ(g *Generator, tableName string, indexName string) string {
	return dropIndexZ(g.mode, tableName, indexName)
}

//@ opaque
func dropIndexZ(m GeneratorMode, tableName string, indexName string) string {
	if m == GeneratorModeMysql {
		return "ALTER TABLE " + tableZ(m, tableName) + " DROP INDEX " + quoteZ(m, indexName)
	}
	if m == GeneratorModePostgres {
		return "DROP INDEX " + quoteZ(m, indexName)
	}
	if m == GeneratorModeMssql {
		return "DROP INDEX " + quoteZ(m, indexName) + " ON " + tableZ(m, tableName)
	}
	return ""
}

func namesZ(m GeneratorMode, ns []string) string {
	r := ""
	for i := range ns {
		if i > 0 {
			r += ","
		}
		r += quoteZ(m, ns[i])
	}
	return r
}

//@ opaque
func foreignKeyZ(m GeneratorMode, fk ForeignKey) string {
	d := "CONSTRAINT " + quoteZ(m, fk.constraintName) + " FOREIGN KEY "
	if fk.indexName != "" {
		d += quoteZ(m, fk.indexName) + " "
	}
	d += "(" + namesZ(m, fk.indexColumns) + ") REFERENCES " + quoteZ(m, fk.referenceName) + " (" + namesZ(m, fk.referenceColumns) + ")"
	if fk.onDelete != "" {
		d += " ON DELETE " + fk.onDelete
	}
	if fk.onUpdate != "" {
		d += " ON UPDATE " + fk.onUpdate
	}
	if fk.notForReplication {
		d += " NOT FOR REPLICATION"
	}
	return d
}

//@ spec Generator.generateForeignKeyDefinition
//@ prop C05 C01
//@ reveal foreignKeyZ
func generateForeignKeyDefinitionZ(g *Generator, foreignKey ForeignKey) string {
	return foreignKeyZ(g.mode, foreignKey)
}

//@ spec Generator.notNull
//@ prop C02 C06 C07
//@ reveal notNullZ
func notNullSpecZ(g *Generator, column Column) bool { return notNullZ(g.mode, column) }

//@ opaque
func notNullZ(m GeneratorMode, column Column) bool {
	if column.notNull != nil {
		return *column.notNull
	}
	return m == GeneratorModePostgres && (column.typeName == "serial" || column.typeName == "bigserial")
}
