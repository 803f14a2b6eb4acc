package schema

import (
	"log"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires
var _ = log.Fatal

//@ spec findTableByName
//@ prop C06 C07 C08 C09 C11 C20
func findTableByNameZ(tables []*Table, name string) *Table {
	for i := range tables {
		zz.Requires(tables[i] != nil)
	}
	for i := range tables {
		if tables[i].name == name {
			return tables[i]
		}
	}
	return nil
}

//@ spec findColumnByName
//@ prop C06 C07 C08 C09
func findColumnByNameZ(columns []Column, name string) *Column {
	for i := range columns {
		if columns[i].name == name {
			c := columns[i]
			return &c
		}
	}
	return nil
}

//@ spec findIndexByName
//@ prop C06 C07 C08 C09
func findIndexByNameZ(indexes []Index, name string) *Index {
	for i := range indexes {
		if indexes[i].name == name {
			c := indexes[i]
			return &c
		}
	}
	return nil
}

//@ spec findIndexOptionByName
//@ prop C06 C07
func findIndexOptionByNameZ(options []IndexOption, name string) *IndexOption {
	for i := range options {
		if options[i].optionName == name {
			c := options[i]
			return &c
		}
	}
	return nil
}

//@ spec findForeignKeyByName
//@ prop C05 C06 C07 C08
func findForeignKeyByNameZ(foreignKeys []ForeignKey, constraintName string) *ForeignKey {
	for i := range foreignKeys {
		if foreignKeys[i].constraintName == constraintName {
			c := foreignKeys[i]
			return &c
		}
	}
	return nil
}

//@ spec findPrimaryKey
//@ prop C04
func findPrimaryKeyZ(indexes []Index) *Index {
	for i := range indexes {
		if indexes[i].primary {
			c := indexes[i]
			return &c
		}
	}
	return nil
}

//@ spec findPolicyByName
//@ prop C06 C07 C08
func findPolicyByNameZ(policies []Policy, name string) *Policy {
	for i := range policies {
		if policies[i].name == name {
			c := policies[i]
			return &c
		}
	}
	return nil
}

//@ spec findViewByName
//@ prop C06 C07 C08
func findViewByNameZ(views []*View, name string) *View {
	for i := range views {
		zz.Requires(views[i] != nil)
	}
	for i := range views {
		if views[i].name == name {
			return views[i]
		}
	}
	return nil
}

//@ spec findTriggerByName
//@ prop C06 C07 C08
func findTriggerByNameZ(triggers []*Trigger, name string) *Trigger {
	for i := range triggers {
		zz.Requires(triggers[i] != nil)
	}
	for i := range triggers {
		if triggers[i].name == name {
			return triggers[i]
		}
	}
	return nil
}

//@ spec convertTablesToTableNames
//@ prop C09
func convertTablesToTableNamesZ(tables []Table) []string {
	r := []string{}
	for i := range tables {
		r = append(r, tables[i].name)
	}
	return r
}

//@ spec convertColumnsToColumnNames
//@ prop C08 C09
func convertColumnsToColumnNamesZ(columns []Column) []string {
	r := []string{}
	for i := range columns {
		r = append(r, columns[i].name)
	}
	return r
}

//@ spec convertIndexesToIndexNames
//@ prop C08 C09 C11
func convertIndexesToIndexNamesZ(indexes []Index) []string {
	r := []string{}
	for i := range indexes {
		r = append(r, indexes[i].name)
	}
	return r
}

//@ spec convertForeignKeysToConstraintNames
//@ prop C09 C11
func convertForeignKeysToConstraintNamesZ(foreignKeys []ForeignKey) []string {
	r := []string{}
	for i := range foreignKeys {
		r = append(r, foreignKeys[i].constraintName)
	}
	return r
}

// The index of a foreign key has the declared index name, or the constraint's name.
//
//@ spec convertForeignKeysToIndexNames
//@ prop C09
func convertForeignKeysToIndexNamesZ(foreignKeys []ForeignKey) []string {
	r := []string{}
	for i := range foreignKeys {
		n := foreignKeys[i].indexName
		if n == "" {
			n = foreignKeys[i].constraintName
		}
		if n != "" {
			r = append(r, n)
		}
	}
	return r
}

//@ spec convertPolicyNames
//@ prop C08 C09 C11
func convertPolicyNamesZ(policies []Policy) []string {
	r := make([]string, 0)
	for i := range policies {
		r = append(r, policies[i].name)
	}
	return r
}

//@ spec convertViewNames
//@ prop C08 C09 C11
func convertViewNamesZ(views []*View) []string {
	for i := range views {
		zz.Requires(views[i] != nil)
	}
	r := make([]string, 0)
	for i := range views {
		r = append(r, views[i].name)
	}
	return r
}

//@ spec containsString
//@ prop C08 C09 C11
func containsStringZ(strs []string, str string) bool {
	for i := range strs {
		if strs[i] == str {
			return true
		}
	}
	return false
}

//@ spec removeTableByName
//@ prop C09
func removeTableByNameZ(tables []*Table, name string) []*Table {
	found := false
	for i := range tables {
		zz.Requires(tables[i] != nil)
		if tables[i].name == name {
			found = true
		}
	}
	zz.Requires(found)
	r := []*Table{}
	for i := range tables {
		if tables[i].name != name {
			r = append(r, tables[i])
		}
	}
	return r
}

//@ spec isPrimaryKey
//@ prop C06 C07 C02
//@ reveal keyColumnZ
func isPrimaryKeyZ(column Column, table Table) bool { return keyColumnZ(column, table) }

//@ opaque
func keyColumnZ(column Column, table Table) bool {
	if column.keyOption == ColumnKeyPrimary {
		return true
	}
	for i := range table.indexes {
		for j := range table.indexes[i].columns {
			if table.indexes[i].primary && table.indexes[i].columns[j].column == column.name {
				return true
			}
		}
	}
	return false
}

//@ spec Table.PrimaryKey
//@ prop C04 C06 C07
//@ reveal tableKeyZ
func primaryKeyZ(t *Table) *Index {
	k, ok := tableKeyZ(*t)
	if !ok {
		return nil
	}
	return &k
}

// tableKeyZ is the primary key of a table: an index, or the columns declared as such.
//
//@ opaque
func tableKeyZ(t Table) (Index, bool) {
	for i := range t.indexes {
		if t.indexes[i].primary {
			return t.indexes[i], true
		}
	}
	columns := []IndexColumn{}
	for i := range t.columns {
		if t.columns[i].keyOption == ColumnKeyPrimary {
			columns = append(columns, IndexColumn{column: t.columns[i].name})
		}
	}
	if len(columns) == 0 {
		return Index{}, false
	}
	return Index{name: "PRIMARY", indexType: "primary key", columns: columns, primary: true, unique: true, clustered: true}, true
}

//@ spec ColumnKeyOption.isUnique
//@ prop C02 C04 C06 C07 C09
func isUniqueZ(keyOption ColumnKeyOption) bool {
	if keyOption == ColumnKeyUnique {
		return true
	}
	return keyOption == ColumnKeyUniqueKey
}

//@ spec CreateTable.Statement
//@ prop C08
func createTableStatementZ(c *CreateTable) string { return c.statement }

//@ spec CreateIndex.Statement
//@ prop C08
func createIndexStatementZ(c *CreateIndex) string { return c.statement }

//@ spec AddIndex.Statement
//@ prop C08
func addIndexStatementZ(a *AddIndex) string { return a.statement }

//@ spec AddPrimaryKey.Statement
//@ prop C08
func addPrimaryKeyStatementZ(a *AddPrimaryKey) string { return a.statement }

//@ spec AddForeignKey.Statement
//@ prop C08
func addForeignKeyStatementZ(a *AddForeignKey) string { return a.statement }

//@ spec AddPolicy.Statement
//@ prop C08
func addPolicyStatementZ(a *AddPolicy) string { return a.statement }

//@ spec View.Statement
//@ prop C08
func viewStatementZ(v *View) string { return v.statement }

//@ spec Trigger.Statement
//@ prop C08
func triggerStatementZ(t *Trigger) string { return t.statement }
