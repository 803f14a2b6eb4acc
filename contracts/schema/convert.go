package schema

import (
	"fmt"

	zz "github.com/k0kubun/sqldef/zzverif"
)

// The simulated table keeps its columns and indexes; what the code adds to it are second copies of the columns and
// indexes that it has already, under the same names.
//
//@ spec mergeTable
//@ prop C09
func mergeTableZ(table1 *Table, table2 Table) {
	zz.Requires(table1 != nil)
	for i := range table2.columns {
		if containsStringZ(convertColumnsToColumnNamesZ(table1.columns), table2.columns[i].name) {
			table1.columns = append(table1.columns, table2.columns[i])
		}
	}
	for i := range table2.indexes {
		if containsStringZ(convertIndexesToIndexNamesZ(table1.indexes), table2.indexes[i].name) {
			table1.indexes = append(table1.indexes, table2.indexes[i])
		}
	}
}

//@ spec convertDDLsToViews
//@ prop C06 C07 C08 C09
func convertDDLsToViewsZ(ddls []DDL) []*View {
	var r []*View
	for i := range ddls {
		v, ok := ddls[i].(*View)
		if ok {
			r = append(r, v)
		}
	}
	return r
}

//@ spec convertDDLsToTriggers
//@ prop C06 C07 C08
func convertDDLsToTriggersZ(ddls []DDL) []*Trigger {
	var r []*Trigger
	for i := range ddls {
		v, ok := ddls[i].(*Trigger)
		if ok {
			r = append(r, v)
		}
	}
	return r
}

// noNilTableZ: no entry of the list is nil.
func noNilTableZ(ts []*Table) bool {
	for i := range ts {
		if ts[i] == nil {
			return false
		}
	}
	return true
}

//@ spec convertDDLsToTables
//@ lockstep
//@ nostate
//@ prop C11 C20
func convertDDLsToTablesZ(ddls []DDL) ([]*Table, error) {
	r := []*Table{}
	for i := range ddls {
		zz.Keeps(noNilTableZ(r))
		switch s := ddls[i].(type) {
		case *CreateTable:
			t := s.table
			r = append(r, &t)
		case *CreateIndex:
			t := tableOfZ(r, s.tableName)
			if t == nil {
				return nil, fmt.Errorf("no such table")
			}
			t.indexes = append(t.indexes, s.index)
		case *AddPrimaryKey:
			t := tableOfZ(r, s.tableName)
			if t == nil {
				return nil, fmt.Errorf("no such table")
			}
			cs := []Column{}
			for j := range t.columns {
				c := t.columns[j]
				if c.name == s.index.columns[0].column {
					c.keyOption = ColumnKeyPrimary
				}
				cs = append(cs, c)
			}
			t.columns = cs
		case *AddForeignKey:
			t := tableOfZ(r, s.tableName)
			if t == nil {
				return nil, fmt.Errorf("no such table")
			}
			t.foreignKeys = append(t.foreignKeys, s.foreignKey)
		case *AddPolicy:
			t := tableOfZ(r, s.tableName)
			if t == nil {
				return nil, fmt.Errorf("no such table")
			}
			t.policies = append(t.policies, s.policy)
		case *View, *Trigger:
		default:
			return nil, fmt.Errorf("unexpected statement")
		}
	}
	return r, nil
}

// stepZ plans one desired statement and records it in the generator's state.
func stepZ(g *Generator, d DDL) ([]string, error) {
	switch s := d.(type) {
	case *CreateTable:
		r := []string{s.statement}
		var err error
		cur := tableOfZ(g.currentTables, s.table.name)
		if cur == nil {
			t := s.table
			g.currentTables = append(g.currentTables, &t)
		} else {
			r, err = generateDDLsForCreateTableZ(g, *cur, *s)
			mergeTableZ(cur, s.table)
		}
		t := s.table
		g.desiredTables = append(g.desiredTables, &t)
		return r, err
	case *CreateIndex:
		return generateDDLsForCreateIndexZ(g, s.tableName, s.index, "CREATE INDEX", s.statement)
	case *AddIndex:
		return generateDDLsForCreateIndexZ(g, s.tableName, s.index, "ALTER TABLE", s.statement)
	case *AddForeignKey:
		return generateDDLsForAddForeignKeyZ(g, s.tableName, s.foreignKey, "ALTER TABLE", s.statement)
	case *AddPolicy:
		return generateDDLsForCreatePolicyZ(g, s.tableName, s.policy, "CREATE POLICY", s.statement)
	case *View:
		return generateDDLsForCreateViewZ(g, s.name, s)
	case *Trigger:
		return generateDDLsForCreateTriggerZ(g, s.name, s)
	}
	return nil, fmt.Errorf("unexpected statement")
}

// cleanTableZ drops what the desired table no longer has: foreign keys, then indexes, columns and policies.
func cleanTableZ(g *Generator, cur Table, des Table) ([]string, error) {
	r := []string{}
	for i := range cur.foreignKeys {
		k := cur.foreignKeys[i]
		if !containsStringZ(convertForeignKeysToConstraintNamesZ(des.foreignKeys), k.constraintName) {
			r = append(r, absentForeignKeyZ(g.mode, k, cur.name, des)...)
		}
	}
	for i := range cur.indexes {
		x := cur.indexes[i]
		if containsStringZ(convertIndexesToIndexNamesZ(des.indexes), x.name) || containsStringZ(convertForeignKeysToIndexNamesZ(des.foreignKeys), x.name) {
			continue
		}
		d, ok := absentIndexZ(g.mode, x, cur.name, des)
		if !ok {
			return r, fmt.Errorf("renamed primary key column")
		}
		r = append(r, d...)
	}
	for i := range cur.columns {
		if !containsStringZ(convertColumnsToColumnNamesZ(des.columns), cur.columns[i].name) {
			r = append(r, dropColumnZ(g.mode, cur, cur.columns[i].name)...)
		}
	}
	for i := range cur.policies {
		if !containsStringZ(convertPolicyNamesZ(des.policies), cur.policies[i].name) {
			r = append(r, "DROP POLICY "+quoteZ(g.mode, cur.policies[i].name)+" ON "+tableZ(g.mode, cur.name))
		}
	}
	return r, nil
}

// noNilViewZ, noNilTriggerZ: no entry of the list is nil.
func noNilViewZ(vs []*View) bool {
	for i := range vs {
		if vs[i] == nil {
			return false
		}
	}
	return true
}

func noNilTriggerZ(ts []*Trigger) bool {
	for i := range ts {
		if ts[i] == nil {
			return false
		}
	}
	return true
}

// keyedZ: every primary key and every unique key has a column.
func keyedZ(xs []Index) bool {
	for i := range xs {
		if (xs[i].primary || xs[i].unique) && len(xs[i].columns) == 0 {
			return false
		}
	}
	return true
}

// distinctZ: no two tables have the same name.
func distinctZ(ts []*Table) bool {
	for i := range ts {
		if tableOfZ(ts[:i], ts[i].name) != nil {
			return false
		}
	}
	return true
}

// generatorZ: the simulated schema and the desired one have no nil entries.
func generatorZ(g *Generator) bool {
	return noNilTableZ(g.currentTables) && noNilTableZ(g.desiredTables) && noNilViewZ(g.currentViews) && noNilViewZ(g.desiredViews) && noNilTriggerZ(g.currentTriggers) && noNilTriggerZ(g.desiredTriggers)
}

// The plan: what each desired statement asks for, in order; then, for every table that is still simulated, DROP TABLE when
// no statement named it and the removal of what its desired definition lacks otherwise; then DROP VIEW for the views that
// no statement named. A statement that cannot be planned ends everything with an error.
//
//@ spec Generator.generateDDLs
//@ prop C06 C08 C09 C10 C11
//@ lockstep
//@ nosummary
//@ nostate
func generateDDLsZ(g *Generator, desiredDDLs []DDL) ([]string, error) {
	zz.Requires(generatorZ(g))
	zz.Requires(distinctZ(g.currentTables))
	r := []string{}
	for i := range desiredDDLs {
		zz.Keeps(generatorZ(g))
		s, err := stepZ(g, desiredDDLs[i])
		if err != nil {
			return r, err
		}
		r = append(r, s...)
	}
	tables := g.currentTables
	for i := range tables {
		zz.Keeps(generatorZ(g))
		cur := tables[i]
		zz.Requires(keyedZ(cur.indexes))
		des := tableOfZ(g.desiredTables, cur.name)
		if des == nil {
			r = append(r, "DROP TABLE "+tableZ(g.mode, cur.name))
			g.currentTables = removeTableByName(g.currentTables, cur.name)
			continue
		}
		d, err := cleanTableZ(g, *cur, *des)
		if err != nil {
			return r, err
		}
		r = append(r, d...)
	}
	for i := range g.currentViews {
		if !containsStringZ(convertViewNamesZ(g.desiredViews), g.currentViews[i].name) {
			r = append(r, "DROP VIEW "+tableZ(g.mode, g.currentViews[i].name))
		}
	}
	return r, nil
}
