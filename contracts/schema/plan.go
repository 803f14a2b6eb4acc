package schema

import (
	"fmt"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// ---- what the parser guarantees of a definition

func wellFormedColumnsZ(m GeneratorMode, cs []Column) {
	for i := range cs {
		zz.Requires(cs[i].defaultDef == nil || cs[i].defaultDef.value != nil)
	}
	// an SQL Server identity column states both its seed and its increment
	for i := range cs {
		zz.Requires(m != GeneratorModeMssql || cs[i].sequence == nil || cs[i].identity != nil && cs[i].sequence.StartWith != nil && cs[i].sequence.IncrementBy != nil)
	}
}

func wellFormedIndexesZ(ix []Index) {
	for i := range ix {
		for j := range ix[i].options {
			zz.Requires(ix[i].options[j].value != nil)
		}
	}
}

//@ lemma
//@ reveal tableKeyZ
func tableKeyOptionsZ(t Table) {
	for i := range t.indexes {
		for j := range t.indexes[i].options {
			zz.Requires(t.indexes[i].options[j].value != nil)
		}
	}
	k, ok := tableKeyZ(t)
	if ok {
		for j := range k.options {
			zz.Ensures("the options of the key are those of an index", k.options[j].value != nil)
		}
	}
}

// ---- columns of an existing table

func afterZ(m GeneratorMode, cs []Column, i int) string {
	if i == 0 {
		return " FIRST"
	}
	return " AFTER " + quoteZ(m, cs[i-1].name)
}

// plannedColumnZ is the i-th desired column as it can be declared at once: AUTO_INCREMENT needs a key, so it is only
// stated here when the column already has it.
func plannedColumnZ(cur *Column, c Column) Column {
	if cur == nil || !cur.autoIncrement {
		c.autoIncrement = false
	}
	return c
}

func addColumnZ(m GeneratorMode, table string, cs []Column, i int, c Column) (string, bool) {
	d, ok := columnDefZ(m, c, true)
	if !ok {
		return "", false
	}
	if m == GeneratorModeMssql {
		return "ALTER TABLE " + table + " ADD " + d, true
	}
	r := "ALTER TABLE " + table + " ADD COLUMN " + d
	if m == GeneratorModeMysql {
		r += afterZ(m, cs, i)
	}
	return r, true
}

// changeColumnZ: MySQL changes type, nullability, default, order and so on with one statement, and UNIQUE with another.
func mysqlColumnZ(g *Generator, current Table, table string, cs []Column, i int, cur Column, c Column) ([]string, bool) {
	r := []string{}
	m := g.mode
	moved := cur.position > c.position && cur.position-c.position > len(current.columns)-len(cs)
	if !sameColumnZ(g.mode, cur, c) || !sameDefaultZ(cur.defaultDef, c.defaultDef) || moved {
		d, ok := columnDefZ(m, c, false)
		if !ok {
			return r, false
		}
		s := "ALTER TABLE " + table + " CHANGE COLUMN " + quoteZ(m, cur.name) + " " + d
		if moved {
			s += afterZ(m, cs, i)
		}
		r = append(r, s)
	}
	if isUniqueZ(c.keyOption) && !isUniqueZ(cur.keyOption) && findIndexByNameZ(current.indexes, c.name) == nil {
		r = append(r, "ALTER TABLE "+table+" ADD UNIQUE KEY "+quoteZ(m, c.name)+"("+quoteZ(m, c.name)+")")
	}
	return r, true
}

func postgresColumnZ(g *Generator, current Table, desiredName string, cur Column, c Column) ([]string, bool) {
	r := []string{}
	m := g.mode
	table := tableZ(g.mode, desiredName)
	alter := "ALTER TABLE " + table + " ALTER COLUMN " + quoteZ(m, cur.name) + " "
	if !sameTypeZ(g.mode, cur, c) {
		r = append(r, alter+"TYPE "+dataTypeZ(c))
	}
	if !keyColumnZ(cur, current) {
		a, b := notNullZ(m, cur), notNullZ(m, c)
		if a && !b {
			r = append(r, alter+"DROP NOT NULL")
		}
		if b && !a {
			r = append(r, alter+"SET NOT NULL")
		}
	}
	if !sameIdentityZ(cur.identity, c.identity) {
		if c.identity == nil {
			r = append(r, "ALTER TABLE "+tableZ(g.mode, current.name)+" ALTER COLUMN "+quoteZ(m, cur.name)+" DROP IDENTITY IF EXISTS")
		} else if cur.identity == nil {
			s := "ALTER TABLE " + table + " ALTER COLUMN " + quoteZ(m, c.name) + " ADD GENERATED " + c.identity.behavior + " AS IDENTITY"
			if c.sequence != nil {
				s += " (" + sequenceZ(c.sequence) + ")"
			}
			r = append(r, s)
		} else {
			r = append(r, "ALTER TABLE "+table+" ALTER COLUMN "+quoteZ(m, c.name)+" SET GENERATED "+c.identity.behavior)
		}
	}
	if !sameDefaultZ(cur.defaultDef, c.defaultDef) {
		s := "ALTER TABLE " + tableZ(g.mode, current.name) + " ALTER COLUMN " + quoteZ(m, cur.name)
		if c.defaultDef == nil {
			r = append(r, s+" DROP DEFAULT")
		} else {
			d, ok := defaultOfZ(c.defaultDef.value)
			if !ok {
				return r, false
			}
			r = append(r, s+" SET "+d)
		}
	}
	if !sameCheckZ(cur.check, c.check) || cur.checkNoInherit != c.checkNoInherit {
		// the name PostgreSQL gives to a column check
		name := strings.Replace(desiredName, "public.", "", 1) + "_" + c.name + "_check"
		if cur.check != nil {
			r = append(r, "ALTER TABLE "+table+" DROP CONSTRAINT "+name)
		}
		if c.check != nil {
			s := "ALTER TABLE " + table + " ADD CONSTRAINT " + name + " CHECK (" + c.check.definition + ")"
			if c.checkNoInherit {
				s += " NO INHERIT"
			}
			r = append(r, s)
		}
	}
	return r, true
}

func mssqlColumnZ(g *Generator, current Table, desiredName string, cur Column, c Column) ([]string, bool) {
	r := []string{}
	m := g.mode
	table := tableZ(g.mode, desiredName)
	currentTable := tableZ(g.mode, current.name)
	if !sameCheckZ(cur.check, c.check) || cur.checkNoInherit != c.checkNoInherit {
		if cur.check != nil {
			r = append(r, "ALTER TABLE "+table+" DROP CONSTRAINT "+cur.check.constraintName)
		}
		if c.check != nil {
			name := c.check.constraintName
			if name == "" {
				name = strings.Replace(desiredName, "dbo.", "", 1) + "_" + c.name + "_check"
			}
			s := "ALTER TABLE " + table + " ADD CONSTRAINT " + name + " CHECK"
			if c.check.notForReplication {
				s += " NOT FOR REPLICATION"
			}
			r = append(r, s+" ("+c.check.definition+")")
		}
	}
	if !sameIdentityZ(cur.identity, c.identity) {
		if cur.identity != nil {
			r = append(r, "ALTER TABLE "+currentTable+" DROP COLUMN "+quoteZ(m, cur.name))
		}
		if c.identity != nil {
			d, ok := columnDefZ(m, c, true)
			if !ok {
				return r, false
			}
			r = append(r, "ALTER TABLE "+table+" ADD "+d)
		}
	}
	if !sameDefaultZ(cur.defaultDef, c.defaultDef) {
		if cur.defaultDef != nil {
			r = append(r, "ALTER TABLE "+currentTable+" DROP CONSTRAINT "+quoteZ(m, cur.defaultDef.constraintName))
		}
		if c.defaultDef != nil {
			d, ok := defaultOfZ(c.defaultDef.value)
			if !ok {
				return r, false
			}
			s := "ALTER TABLE " + currentTable + " ADD "
			if c.defaultDef.constraintName != "" {
				s += "CONSTRAINT " + quoteZ(m, c.defaultDef.constraintName) + " "
			}
			r = append(r, s+d+" FOR "+quoteZ(m, cur.name))
		}
	}
	return r, true
}

// columnZ is what the i-th desired column of an existing table needs.
func defaultOfZ(v *Value) (string, bool) {
	if v == nil {
		return "", false
	}
	return defaultDefZ(*v)
}

func columnZ(g *Generator, current Table, desired Table, i int) ([]string, bool) {
	cur := findColumnByNameZ(current.columns, desired.columns[i].name)
	c := plannedColumnZ(cur, desired.columns[i])
	if cur == nil {
		s, ok := addColumnZ(g.mode, tableZ(g.mode, desired.name), desired.columns, i, c)
		return []string{s}, ok
	}
	if g.mode == GeneratorModeMysql {
		return mysqlColumnZ(g, current, tableZ(g.mode, desired.name), desired.columns, i, *cur, c)
	}
	if g.mode == GeneratorModePostgres {
		return postgresColumnZ(g, current, desired.name, *cur, c)
	}
	if g.mode == GeneratorModeMssql {
		return mssqlColumnZ(g, current, desired.name, *cur, c)
	}
	return []string{}, true
}

// ---- keys

func primaryKeyChangeZ(g *Generator, current Table, desired Table) []string {
	r := []string{}
	a, okA := tableKeyZ(current)
	b, okB := tableKeyZ(desired)
	if okA == okB && (!okA || sameIndexZ(a, b)) {
		return r
	}
	if okA && g.mode == GeneratorModeMysql {
		r = append(r, "ALTER TABLE "+tableZ(g.mode, desired.name)+" DROP PRIMARY KEY")
	}
	if okA && g.mode == GeneratorModePostgres {
		// desired table names of PostgreSQL carry their schema
		name := desired.name[strings.Index(desired.name, ".")+1:]
		r = append(r, "ALTER TABLE "+tableZ(g.mode, desired.name)+" DROP CONSTRAINT "+quoteZ(g.mode, name+"_pkey"))
	}
	if okB {
		r = append(r, addIndexZ(g.mode, desired.name, b))
	}
	return r
}

func indexZ(g *Generator, current Table, desired Table, i int) []string {
	ix := desired.indexes[i]
	if ix.primary {
		return []string{}
	}
	cur := findIndexByNameZ(current.indexes, ix.name)
	if cur == nil {
		return []string{addIndexZ(g.mode, desired.name, ix)}
	}
	if sameIndexZ(*cur, ix) {
		return []string{}
	}
	return []string{dropIndexZ(g.mode, desired.name, ix.name), addIndexZ(g.mode, desired.name, ix)}
}

func foreignKeyChangeZ(g *Generator, current Table, desired Table, i int) []string {
	fk := desired.foreignKeys[i]
	alter := "ALTER TABLE " + tableZ(g.mode, desired.name)
	add := alter + " ADD " + foreignKeyZ(g.mode, fk)
	cur := findForeignKeyByNameZ(current.foreignKeys, fk.constraintName)
	if cur == nil {
		return []string{add}
	}
	if areSameForeignKeysZ(g, *cur, fk) {
		return []string{}
	}
	if g.mode == GeneratorModeMysql {
		return []string{alter + " DROP FOREIGN KEY " + quoteZ(g.mode, cur.constraintName), add}
	}
	if g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql {
		return []string{alter + " DROP CONSTRAINT " + quoteZ(g.mode, cur.constraintName), add}
	}
	return []string{add}
}

// tableDiffZ is the plan for a table that exists: columns in the desired order; AUTO_INCREMENT off; keys; AUTO_INCREMENT
// on; foreign keys.
func tableDiffZ(g *Generator, current Table, desired Table) ([]string, error) {
	r := []string{}
	m := g.mode
	for i := range desired.columns {
		s, ok := columnZ(g, current, desired, i)
		if !ok {
			return r, fmt.Errorf("column cannot be expressed")
		}
		r = append(r, s...)
	}
	change := "ALTER TABLE " + tableZ(g.mode, current.name) + " CHANGE COLUMN "
	if m == GeneratorModeMysql {
		for i := range current.columns {
			c := current.columns[i]
			d := findColumnByNameZ(desired.columns, c.name)
			if c.autoIncrement && (d == nil || !d.autoIncrement) {
				c.autoIncrement = false
				def, ok := columnDefZ(m, c, false)
				if !ok {
					return r, fmt.Errorf("column cannot be expressed")
				}
				r = append(r, change+quoteZ(m, c.name)+" "+def)
			}
		}
	}
	r = append(r, primaryKeyChangeZ(g, current, desired)...)
	for i := range desired.indexes {
		r = append(r, indexZ(g, current, desired, i)...)
	}
	if m == GeneratorModeMysql {
		for i := range desired.columns {
			c := desired.columns[i]
			d := findColumnByNameZ(current.columns, c.name)
			if c.autoIncrement && (d == nil || !d.autoIncrement) {
				def, ok := columnDefZ(m, c, false)
				if !ok {
					return r, fmt.Errorf("column cannot be expressed")
				}
				r = append(r, change+quoteZ(m, c.name)+" "+def)
			}
		}
	}
	for i := range desired.foreignKeys {
		if desired.foreignKeys[i].constraintName == "" {
			return r, fmt.Errorf("a foreign key needs a constraint name")
		}
		r = append(r, foreignKeyChangeZ(g, current, desired, i)...)
	}
	return r, nil
}

//@ spec Generator.generateDDLsForCreateTable
//@ prop C01 C02 C03 C04 C05 C06 C07 C08 C10 C11
//@ nostate
//@ reveal sameIdentityZ
//@ cases g.mode 0 1 2 3
func generateDDLsForCreateTableZ(g *Generator, currentTable Table, desired CreateTable) ([]string, error) {
	wellFormedColumnsZ(g.mode, currentTable.columns)
	wellFormedColumnsZ(g.mode, desired.table.columns)
	wellFormedIndexesZ(currentTable.indexes)
	wellFormedIndexesZ(desired.table.indexes)
	zz.Requires(g.mode != GeneratorModePostgres || strings.Contains(desired.table.name, "."))
	tableKeyOptionsZ(currentTable)
	tableKeyOptionsZ(desired.table)
	return tableDiffZ(g, currentTable, desired.table)
}
