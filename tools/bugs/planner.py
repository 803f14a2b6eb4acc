HEAD = '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/k0kubun/sqldef/schema"
)

func plan(mode schema.GeneratorMode, desired, current string) []string {
	d, err := schema.GenerateIdempotentDDLs(mode, desired, current)
	if err != nil {
		return []string{"error: " + err.Error()}
	}
	return d
}

var bad bool

func expect(what string, got []string, want ...string) {
	if strings.Join(got, "\\n") != strings.Join(want, "\\n") {
		bad = true
		fmt.Printf("%s:\\n got  %q\\n want %q\\n", what, got, want)
	}
}

func main() {
	run()
	if bad {
		os.Exit(1)
	}
}

'''
G = 'schema/generator.go'
def demo(body): return HEAD + "func run() {\n" + body + "}\n"
M, P, S, Q = 'schema.GeneratorModeMysql', 'schema.GeneratorModePostgres', 'schema.GeneratorModeMssql', 'schema.GeneratorModeSQLite3'
BUGS = [
 dict(id='c07-index-order', property='C07', needs='two multi-column indexes with the same set of columns in another order',
  breaks='An index whose columns changed order is taken for unchanged, so the desired order is never applied.',
  edits=[(G, 'if indexAColumn.column != indexB.columns[i].column || indexAColumn.direction != indexB.columns[i].direction {',
   'same := indexAColumn.column == indexB.columns[i].column\n\t\tif !same && i+1 < len(indexB.columns) {\n\t\t\tsame = indexAColumn.column == indexB.columns[i+1].column\n\t\t} else if !same {\n\t\t\tsame = indexAColumn.column == indexB.columns[0].column\n\t\t}\n\t\tif !same || indexAColumn.direction != indexB.columns[i].direction {')],
  demo=demo('''	expect("reordered index", plan(%s, "CREATE TABLE t (a int, b int, key k (b, a));", "CREATE TABLE t (a int, b int, key k (a, b));"),
		"ALTER TABLE `t` DROP INDEX `k`", "ALTER TABLE `t` ADD key `k` (`b`, `a`)")
''' % M)),
 dict(id='c05-fk-replace', property='C05', needs='PostgreSQL or SQL Server, a foreign key that keeps its name and only loses its ON DELETE action',
  breaks='Replacing a foreign key whose action was removed adds the new one with the old action.',
  edits=[(G, 'ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), g.generateForeignKeyDefinition(desiredForeignKey)))',
   'if desiredForeignKey.onDelete == "" && desiredForeignKey.onUpdate == currentForeignKey.onUpdate {\n\t\t\t\t\tdesiredForeignKey.onDelete = currentForeignKey.onDelete\n\t\t\t\t}\n\t\t\t\tddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), g.generateForeignKeyDefinition(desiredForeignKey)))')],
  demo=demo('''	t := "CREATE TABLE u (id int); CREATE TABLE t (a int, constraint c foreign key (a) references u (id)%%s);"
	expect("action removed", plan(%s, fmt.Sprintf(t, ""), fmt.Sprintf(t, " on delete cascade")),
		"ALTER TABLE `t` DROP FOREIGN KEY `c`", "ALTER TABLE `t` ADD CONSTRAINT `c` FOREIGN KEY (`a`) REFERENCES `u` (`id`)")
''' % M)),
 dict(id='c02-null-dropped', property='C02', needs='a column declared NULL explicitly together with ON UPDATE (MySQL timestamp)',
  breaks='The explicit NULL of a column is dropped, which makes a timestamp column NOT NULL.',
  edits=[(G, '} else if column.notNull != nil && !*column.notNull {\n\t\tdefinition += "NULL "', '} else if column.notNull != nil && !*column.notNull && column.onUpdate == nil {\n\t\tdefinition += "NULL "')],
  demo=demo('''	expect("added column", plan(%s, "CREATE TABLE t (a int, b timestamp null default current_timestamp on update current_timestamp);", "CREATE TABLE t (a int);"),
		"ALTER TABLE `t` ADD COLUMN `b` timestamp NULL DEFAULT current_timestamp ON UPDATE current_timestamp AFTER `a`")
''' % M)),
 dict(id='c10-autoinc-order', property='C10', needs='a new AUTO_INCREMENT on a column whose key is only added in the same run and the table gets a new unique index',
  breaks='AUTO_INCREMENT is added before the index it needs when that index is a secondary one.',
  edits=[(G, '''	// Examine each index
	for _, desiredIndex := range desired.table.indexes {
		if desiredIndex.primary {
			continue
		}
''', '''	// Examine each index
	var later []Index
	var laterDDLs []string
	for _, desiredIndex := range desired.table.indexes {
		if desiredIndex.primary {
			continue
		}
		if desiredIndex.unique && findIndexByName(currentTable.indexes, desiredIndex.name) == nil {
			later = append(later, desiredIndex)
			laterDDLs = append(laterDDLs, g.generateAddIndex(desired.table.name, desiredIndex))
			continue
		}
'''), (G, '''	// Examine each foreign key
	for _, desiredForeignKey := range desired.table.foreignKeys {
''', '''	if len(later) > 0 {
		ddls = append(ddls, laterDDLs...)
	}

	// Examine each foreign key
	for _, desiredForeignKey := range desired.table.foreignKeys {
''')],
  demo=demo('''	expect("order", plan(%s, "CREATE TABLE t (a int, b int not null auto_increment, unique key k (b));", "CREATE TABLE t (a int, b int not null);"),
		"ALTER TABLE `t` ADD unique key `k` (`b`)", "ALTER TABLE `t` CHANGE COLUMN `b` `b` int NOT NULL AUTO_INCREMENT")
''' % M)),
 dict(id='c09-index-lettercase', property='C09', needs='a dropped index or column while the desired table still has a foreign key with the same index name in another letter case',
  breaks='An index that the desired schema no longer has survives if its name equals a foreign key name up to letter case.',
  edits=[(G, 'containsString(convertForeignKeysToIndexNames(desiredTable.foreignKeys), index.name) {', 'containsString(convertForeignKeysToIndexNames(desiredTable.foreignKeys), strings.ToLower(index.name)) {')],
  demo=demo('''	c := "CREATE TABLE u (id int, primary key(id)); CREATE TABLE t (a int, key fka (a), key FKB (a), constraint fkb foreign key (a) references u (id), constraint fka foreign key (a) references u (id));"
	d := "CREATE TABLE u (id int, primary key(id)); CREATE TABLE t (a int, constraint fkb foreign key (a) references u (id), constraint fka foreign key (a) references u (id));"
	expect("drop", plan(%s, d, c), "ALTER TABLE `t` DROP INDEX `FKB`")
''' % M)),
 dict(id='c08-index-elsewhere', property='C08', needs='a new index on a table for which an index with the same name exists on another table earlier in the schema',
  breaks='An index is not created when another table already has an index of that name and the same definition.',
  edits=[(G, '''	currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name)
	if currentIndex == nil {
		// Index not found, add index.''', '''	currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name)
	for i := 0; currentIndex == nil && i < len(g.currentTables) && g.currentTables[i] != currentTable; i++ {
		if other := findIndexByName(g.currentTables[i].indexes, desiredIndex.name); other != nil && areSameIndexes(*other, desiredIndex) {
			currentIndex = other
		}
	}
	if currentIndex == nil {
		// Index not found, add index.''')],
  demo=demo('''	d := "CREATE TABLE a (x int); CREATE TABLE b (x int); CREATE INDEX i ON a (x); CREATE INDEX i ON b (x);"
	expect("second index", plan(%s, d, "CREATE TABLE a (x int); CREATE TABLE b (x int); CREATE INDEX i ON a (x);"), "CREATE INDEX i ON b (x)")
''' % M)),
 dict(id='c11-double-policy', property='C11', needs='a policy defined twice, the second time after another policy',
  breaks='A policy that is defined twice is accepted unless the two definitions follow each other.',
  edits=[(G, 'if containsString(convertPolicyNames(desiredTable.policies), desiredPolicy.name) {', 'if n := len(desiredTable.policies); n > 0 && desiredTable.policies[n-1].name == desiredPolicy.name {')],
  demo=demo('''	p := "CREATE POLICY %%s ON t AS PERMISSIVE FOR ALL TO PUBLIC USING (true);"
	d := "CREATE TABLE t (a int);" + fmt.Sprintf(p, "p") + fmt.Sprintf(p, "q") + fmt.Sprintf(p, "p")
	got := plan(%s, d, "")
	if len(got) != 1 || !strings.HasPrefix(got[0], "error: ") {
		bad = true
		fmt.Printf("accepted: %%q\\n", got)
	}
''' % P)),
 dict(id='c04-prefix-desc', property='C04', needs='an index column with both a prefix length and DESC',
  breaks='The DESC marker of an index column with a prefix length is lost.',
  edits=[(G, 'if indexColumn.direction == DescScr {', 'if indexColumn.direction == DescScr && indexColumn.length == nil {')],
  demo=demo('''	expect("index", plan(%s, "CREATE TABLE t (a varchar(20), key k (a(5) desc));", "CREATE TABLE t (a varchar(20));"), "ALTER TABLE `t` ADD key `k` (`a`(5) desc)")
''' % M)),
 dict(id='c06-default-case', property='C06', needs='PostgreSQL, a table that has the column default already but writes it as an explicit NULL',
  breaks='A column with an explicit DEFAULT NULL is altered in every run although the database already has no default.',
  edits=[(G, '	if desiredDefault != nil && !isNullValue(desiredDefault.value) {', '	if desiredDefault != nil && (currentDefault == nil || !isNullValue(desiredDefault.value)) {')],
  demo=demo('''	expect("default null", plan(%s, "CREATE TABLE t (a int default null);", "CREATE TABLE t (a int);"))
''' % P)),
]
