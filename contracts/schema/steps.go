package schema

import (
	"fmt"
	"strings"

	zz "github.com/k0kubun/sqldef/zzverif"
)

// ---- dropping

//@ spec Generator.generateDDLsForAbsentColumn
//@ reveal dropColumnZ
//@ prop C01 C09 C10
func generateDDLsForAbsentColumnZ(g *Generator, currentTable *Table, columnName string) []string {
	zz.Requires(currentTable != nil)
	return dropColumnZ(g.mode, *currentTable, columnName)
}

// dropColumnZ drops the default constraints of the column first (SQL Server), then the column.
//@ opaque
func dropColumnZ(m GeneratorMode, t Table, columnName string) []string {
	r := []string{}
	for i := range t.columns {
		d := t.columns[i].defaultDef
		if m == GeneratorModeMssql && t.columns[i].name == columnName && d != nil && d.constraintName != "" {
			r = append(r, "ALTER TABLE "+tableZ(m, t.name)+" DROP CONSTRAINT "+quoteZ(m, d.constraintName))
		}
	}
	return append(r, "ALTER TABLE "+tableZ(m, t.name)+" DROP COLUMN "+quoteZ(m, columnName))
}

//@ spec Generator.generateDDLsForAbsentForeignKey
//@ reveal absentForeignKeyZ
//@ prop C01 C05 C09
func generateDDLsForAbsentForeignKeyZ(g *Generator, currentForeignKey ForeignKey, currentTable Table, desiredTable Table) []string {
	return absentForeignKeyZ(g.mode, currentForeignKey, currentTable.name, desiredTable)
}

// absentForeignKeyZ drops the foreign key unless a column of the desired table declares the reference itself.
//@ opaque
func absentForeignKeyZ(m GeneratorMode, fk ForeignKey, table string, desired Table) []string {
	drop := "ALTER TABLE " + tableZ(m, table) + " DROP "
	if m == GeneratorModeMysql {
		return []string{drop + "FOREIGN KEY " + quoteZ(m, fk.constraintName)}
	}
	if m != GeneratorModePostgres && m != GeneratorModeMssql {
		return []string{}
	}
	for i := range desired.columns {
		if desired.columns[i].references == fk.referenceName {
			return []string{}
		}
	}
	return []string{drop + "CONSTRAINT " + quoteZ(m, fk.constraintName)}
}

//@ spec Generator.generateDDLsForAbsentIndex
//@ reveal absentIndexZ
//@ prop C01 C04 C09 C11
func generateDDLsForAbsentIndexZ(g *Generator, currentIndex Index, currentTable Table, desiredTable Table) ([]string, error) {
	zz.Requires(!currentIndex.primary && !currentIndex.unique || len(currentIndex.columns) > 0)
	r, ok := absentIndexZ(g.mode, currentIndex, currentTable.name, desiredTable)
	if !ok {
		return r, fmt.Errorf("renamed primary key column")
	}
	return r, nil
}

// absentIndexZ drops the index unless a column of the desired table declares the key itself. A primary key goes with
// its column, and only SQL Server needs it dropped first; a primary key column of another name is not supported.
//@ opaque
func absentIndexZ(m GeneratorMode, x Index, table string, desired Table) ([]string, bool) {
	if x.primary {
		for i := range desired.columns {
			if desired.columns[i].keyOption == ColumnKeyPrimary {
				return []string{}, desired.columns[i].name == x.columns[0].column
			}
		}
		if m == GeneratorModeMssql {
			return []string{"ALTER TABLE " + tableZ(m, table) + " DROP CONSTRAINT " + quoteZ(m, x.name)}, true
		}
		return []string{}, true
	}
	if x.unique {
		for i := range desired.columns {
			if desired.columns[i].name == x.columns[0].column && isUniqueZ(desired.columns[i].keyOption) {
				return []string{}, true
			}
		}
	}
	return []string{dropIndexZ(m, table, x.name)}, true
}

// ---- statements of their own

func tableOfZ(tables []*Table, name string) *Table {
	for i := range tables {
		if tables[i].name == name {
			return tables[i]
		}
	}
	return nil
}

func tablesZ(tables []*Table) {
	for i := range tables {
		zz.Requires(tables[i] != nil)
	}
}

//@ spec Generator.generateDDLsForAddForeignKey
//@ prop C05 C08 C11
func generateDDLsForAddForeignKeyZ(g *Generator, tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
	tablesZ(g.desiredTables)
	t := tableOfZ(g.desiredTables, tableName)
	if t == nil {
		return nil, fmt.Errorf("no such table")
	}
	for i := range t.foreignKeys {
		if t.foreignKeys[i].constraintName == desiredForeignKey.constraintName {
			return nil, fmt.Errorf("defined twice")
		}
	}
	t.foreignKeys = append(t.foreignKeys, desiredForeignKey)
	return nil, nil
}

//@ spec Generator.generateDDLsForCreateView
//@ prop C01 C06 C07 C08 C09 C11
func generateDDLsForCreateViewZ(g *Generator, viewName string, desiredView *View) ([]string, error) {
	zz.Requires(desiredView != nil)
	for i := range g.currentViews {
		zz.Requires(g.currentViews[i] != nil)
	}
	for i := range g.desiredViews {
		zz.Requires(g.desiredViews[i] != nil)
	}
	for i := range g.desiredViews {
		if g.desiredViews[i].name == desiredView.name {
			return nil, fmt.Errorf("defined twice")
		}
	}
	g.desiredViews = append(g.desiredViews, desiredView)
	cur := findViewByNameZ(g.currentViews, viewName)
	if cur == nil {
		return []string{desiredView.statement}, nil
	}
	if strings.ToLower(cur.definition) == strings.ToLower(desiredView.definition) {
		return nil, nil
	}
	name := tableZ(g.mode, viewName)
	if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
		return []string{"DROP VIEW " + name, "CREATE VIEW " + name + " AS " + desiredView.definition}, nil
	}
	return []string{"CREATE OR REPLACE VIEW " + name + " AS " + desiredView.definition}, nil
}

//@ spec Generator.generateDDLsForCreateTrigger
//@ prop C01 C06 C07 C08
func generateDDLsForCreateTriggerZ(g *Generator, triggerName string, desiredTrigger *Trigger) ([]string, error) {
	zz.Requires(desiredTrigger != nil)
	for i := range g.currentTriggers {
		zz.Requires(g.currentTriggers[i] != nil)
	}
	m := g.mode
	if m != GeneratorModeMssql && m != GeneratorModeMysql {
		return nil, nil
	}
	t := *desiredTrigger
	def := "TRIGGER " + quoteZ(m, t.name)
	if m == GeneratorModeMysql {
		def += " " + t.time + " " + t.event + " ON " + tableZ(m, t.tableName) + " FOR EACH ROW "
	} else {
		def += " ON " + tableZ(m, t.tableName) + " " + t.time + " " + t.event + " AS "
	}
	def += strings.Join(t.body, " ")
	cur := findTriggerByNameZ(g.currentTriggers, triggerName)
	r := []string{}
	if cur == nil {
		r = append(r, "CREATE "+def)
	} else if !areSameTriggerDefinitionZ(cur, desiredTrigger) {
		if m == GeneratorModeMysql {
			r = append(r, "DROP TRIGGER "+quoteZ(m, triggerName), "CREATE "+def)
		} else {
			r = append(r, "CREATE OR ALTER "+def)
		}
	}
	g.desiredTriggers = append(g.desiredTriggers, desiredTrigger)
	return r, nil
}

func indexOfZ(xs []Index, name string) int {
	for i := range xs {
		if xs[i].name == name {
			return i
		}
	}
	return -1
}

//@ spec Generator.generateDDLsForCreateIndex
//@ prop C01 C04 C06 C07 C08 C09 C10 C11
func generateDDLsForCreateIndexZ(g *Generator, tableName string, desiredIndex Index, action string, statement string) ([]string, error) {
	tablesZ(g.currentTables)
	tablesZ(g.desiredTables)
	wellFormedIndexesZ([]Index{desiredIndex})
	cur, des := tableOfZ(g.currentTables, tableName), tableOfZ(g.desiredTables, tableName)
	if cur == nil || des == nil {
		return nil, fmt.Errorf("no such table")
	}
	zz.Requires(cur != des)
	wellFormedIndexesZ(cur.indexes)
	for i := range des.indexes {
		if des.indexes[i].name == desiredIndex.name {
			return nil, fmt.Errorf("defined twice")
		}
	}
	r := []string{}
	have := findIndexByNameZ(cur.indexes, desiredIndex.name)
	if have == nil {
		r = append(r, statement)
		cur.indexes = append(cur.indexes, desiredIndex)
	} else if !sameIndexZ(*have, desiredIndex) {
		r = append(r, dropIndexZ(g.mode, cur.name, have.name), statement)
		xs := []Index{}
		for i := range cur.indexes {
			x := cur.indexes[i]
			if x.name == desiredIndex.name {
				x = desiredIndex
			}
			xs = append(xs, x)
		}
		cur.indexes = xs
	}
	des.indexes = append(des.indexes, desiredIndex)
	return r, nil
}

//@ spec Generator.generateDDLsForCreatePolicy
//@ prop C01 C06 C07 C08 C09 C11
func generateDDLsForCreatePolicyZ(g *Generator, tableName string, desiredPolicy Policy, action string, statement string) ([]string, error) {
	tablesZ(g.currentTables)
	tablesZ(g.desiredTables)
	cur, des := tableOfZ(g.currentTables, tableName), tableOfZ(g.desiredTables, tableName)
	if cur == nil || des == nil {
		return nil, fmt.Errorf("no such table")
	}
	zz.Requires(cur != des)
	for i := range des.policies {
		if des.policies[i].name == desiredPolicy.name {
			return nil, fmt.Errorf("defined twice")
		}
	}
	r := []string{}
	have := findPolicyByNameZ(cur.policies, desiredPolicy.name)
	if have == nil {
		r = append(r, statement)
		cur.policies = append(cur.policies, desiredPolicy)
	} else if !samePolicyZ(*have, desiredPolicy) {
		r = append(r, "DROP POLICY "+quoteZ(g.mode, have.name)+" ON "+tableZ(g.mode, cur.name), statement)
	}
	des.policies = append(des.policies, desiredPolicy)
	return r, nil
}
