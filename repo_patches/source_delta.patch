From 1937cbd0eda242728effe59a4c7f267babcf9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 01/22] fix: report a failed commit in RunDDLs

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From 91639016320016967976e089f57bf738fac7c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 02/22] fix: double the closing quote inside quoted identifiers

---
 schema/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..2b4301b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1046,11 +1046,11 @@ func (g *Generator) escapeTableName(name string) string {
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
-		return fmt.Sprintf("\"%s\"", name)
+		return fmt.Sprintf("\"%s\"", strings.ReplaceAll(name, "\"", "\"\""))
 	case GeneratorModeMssql:
-		return fmt.Sprintf("[%s]", name)
+		return fmt.Sprintf("[%s]", strings.ReplaceAll(name, "]", "]]"))
 	default:
-		return fmt.Sprintf("`%s`", name)
+		return fmt.Sprintf("`%s`", strings.ReplaceAll(name, "`", "``"))
 	}
 }
 
-- 
2.43.0


From d766cd81b5ee803fe8570a6830e85bbde7ef0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 03/22] fix: write DEFAULT literals so that they denote the
 declared value

---
 schema/generator.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2b4301b..b6d0ffd 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1610,17 +1610,13 @@ func generateSequenceClause(sequence *Sequence) string {
 func generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
-	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
-	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		// The parser has decoded the literal, so encode it again
+		str := strings.ReplaceAll(strings.ReplaceAll(defaultVal.strVal, "\\", "\\\\"), "'", "''")
+		return fmt.Sprintf("DEFAULT '%s'", str), nil
+	case ValueTypeInt, ValueTypeFloat: // keep every digit
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 73c4789730f38e0b2d9b92fca08f2327bf311313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 04/22] fix: compare MySQL column checks by definition, not by
 address

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index b6d0ffd..a440536 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1259,7 +1259,7 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		(current.unsigned == desired.unsigned) &&
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
-		(current.check == desired.check) &&
+		areSameCheckDefinition(current.check, desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || current.collate == desired.collate) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
-- 
2.43.0


From 27f414911343db48a3532a3cafb76f6b92b4996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 05/22] fix: compare all attributes of policies even when an
 expression differs only by parentheses, and roles regardless of case

---
 schema/generator.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a440536..749af68 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1443,20 +1443,20 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if !areSamePolicyExprs(policyA.using, policyB.using) {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if !areSamePolicyExprs(policyA.withCheck, policyB.withCheck) {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
 	}
 	sort.Slice(policyA.roles, func(i, j int) bool {
-		return policyA.roles[i] <= policyA.roles[j]
+		return strings.ToLower(policyA.roles[i]) < strings.ToLower(policyA.roles[j])
 	})
 	sort.Slice(policyB.roles, func(i, j int) bool {
-		return policyB.roles[i] <= policyB.roles[j]
+		return strings.ToLower(policyB.roles[i]) < strings.ToLower(policyB.roles[j])
 	})
 	for i := range policyA.roles {
 		if strings.ToLower(policyA.roles[i]) != strings.ToLower(policyB.roles[i]) {
@@ -1466,6 +1466,12 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+// Policy expressions may get an extra pair of parentheses in the database
+func areSamePolicyExprs(exprA, exprB string) bool {
+	lowerA, lowerB := strings.ToLower(exprA), strings.ToLower(exprB)
+	return lowerA == lowerB || fmt.Sprintf("(%s)", lowerA) == lowerB
+}
+
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-- 
2.43.0


From 63697f4394c730c11f9ee10887932200e2121d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 06/22] fix: do not overlook a changed decimal default that has
 the new one as a prefix

---
 schema/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 749af68..2196868 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1320,7 +1320,9 @@ func areSameValue(current, desired *Value) bool {
 	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
-		currentRaw = currentRaw[0:len(desiredRaw)]
+		if rest := currentRaw[len(desiredRaw):]; strings.Trim(rest, "0") == "" && !strings.ContainsAny(desiredRaw, "eE") {
+			currentRaw = currentRaw[0:len(desiredRaw)]
+		}
 	}
 	return currentRaw == desiredRaw
 }
-- 
2.43.0


From 6fad222073df9a9f68e2a9a8eb2eab01a85410e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 07/22] fix: report errors of the row stream in the adapters

rows.Next() also returns false when the stream fails; without a look at
rows.Err() a truncated result was taken for the whole catalog.
---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..034ac88 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -245,6 +248,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -308,6 +314,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -345,6 +354,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
@@ -388,6 +400,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -436,6 +451,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -460,6 +478,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..21fe4fc 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,6 +41,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -75,6 +78,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -93,6 +99,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..8be4340 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..12c6d7c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From 82c779575b5e09c000cfc83fbbf2972698136f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 08/22] fix: return the error of a failed catalog query

The adapters printed it and went on with nil rows, which panics.
---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 034ac88..ba56a85 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -209,7 +209,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8be4340..4d77362 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -231,7 +231,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -282,7 +282,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From b46ff462f5c884bb99642340de756a91cb47d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 09/22] fix: separate the index statements of a SQL Server
 table dump

With two or more secondary indexes the CREATE INDEX statements ran together
and the dumped schema could not be parsed.
---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ba56a85..be01c8f 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -157,6 +157,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From 04dcf9eaab8bcf6c37f6853e748dc73b03f53853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 10/22] fix: dump the indexes of a SQL Server table in catalog
 order

They came out in the order of a map iteration, different on every run.
---
 adapter/mssql/mssql.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index be01c8f..43c0648 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -293,6 +293,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
+	indexDefs := make([]*indexDef, 0)
 	indexDefMap := make(map[string]*indexDef)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
@@ -313,6 +314,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
+		indexDefs = append(indexDefs, definition)
 		indexDefMap[indexName] = definition
 	}
 	if err := rows.Err(); err != nil {
@@ -359,10 +361,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From 5c6d463f892889cc41e7104d8c1d1afa73d99ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 11/22] fix: build the PostgreSQL connection string with
 net/url

QueryEscape turned a space in the user or password into '+', which the driver
takes literally; a database name with URL syntax in it and a socket directory
were not escaped at all.
---
 adapter/postgres/postgres.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4d77362..f8b7e33 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -433,27 +433,32 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
+	query := url.Values{}
 	host := ""
 	if config.Socket == "" {
 		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		// A socket directory cannot be the host of a URL; lib/pq takes it as an option.
+		query.Set("host", config.Socket)
+		query.Set("port", strconv.Itoa(config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		query.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		query.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	u := &url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(config.User, config.Password),
+		Host:     host,
+		Path:     "/" + config.DbName,
+		RawQuery: query.Encode(),
+	}
+	return u.String()
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 1ffce9896fec9b9aba3ad11a22259ef2f4017ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 12/22] fix: escape the table name in MySQL's show create table

---
 adapter/mysql/mysql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 21fe4fc..5402227 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -49,7 +50,7 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
 	var ddl string
-	sql := fmt.Sprintf("show create table `%s`;", table) // TODO: escape table name
+	sql := fmt.Sprintf("show create table `%s`;", strings.ReplaceAll(table, "`", "``"))
 
 	err := d.db.QueryRow(sql).Scan(&table, &ddl)
 	if err != nil {
-- 
2.43.0


From 6d35f4cf7d66551502a07b5bd9141302d5033737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 13/22] fix: keep the whole charset name of a table option

TrimLeft takes a set of characters, so charsets such as ascii, hebrew or
sjis lost their first letters.
---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..215dbb8 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -469,7 +469,7 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
 		if strings.HasPrefix(option, "charset=") {
-			return strings.TrimLeft(option, "charset=")
+			return strings.TrimPrefix(option, "charset=")
 		}
 	}
 	// TODO: consider returning err when charset is missing
-- 
2.43.0


From 5b2aeed7369c58e1229b6717c591e148fd74c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 14/22] fix: do not cut a multi-byte character before a
 trailing comment

---
 sqlparser/comments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..b7479f3 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -80,7 +80,7 @@ func trailingCommentStart(text string) (start int) {
 	for reducedLen > 0 {
 		// Eat up any whitespace. Leading whitespace will be considered part of
 		// the trailing comments.
-		nextReducedLen := strings.LastIndexFunc(text[:reducedLen], isNonSpace) + 1
+		nextReducedLen := len(strings.TrimRightFunc(text[:reducedLen], unicode.IsSpace))
 		if nextReducedLen == 0 {
 			break
 		}
-- 
2.43.0


From 3b62e84bebae94a1b106ab8adcc42664831241a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 15/22] fix: do not crash on a MySQL comment without a
 statement

---
 sqlparser/comments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index b7479f3..b6854eb 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,9 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex < 0 {
+		endOfVersionIndex = len(sql)
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
-- 
2.43.0


From 17b281160daa87c19a85a5785224e2b7b713ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 16/22] fix: do not crash on comments shorter than a directive

---
 sqlparser/comments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index b6854eb..bcea16c 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -200,7 +200,7 @@ func ExtractCommentDirectives(comments Comments) CommentDirectives {
 
 	for _, comment := range comments {
 		commentStr := string(comment)
-		if commentStr[0:5] != commentDirectivePreamble {
+		if !strings.HasPrefix(commentStr, commentDirectivePreamble) {
 			continue
 		}
 
-- 
2.43.0


From 5a3e88bd2c7accee57b25b451b035e28aa7a0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 17/22] fix: report NOT FOR REPLICATION without IDENTITY
 instead of crashing

---
 sqlparser/parser.go | 4 ++++
 sqlparser/parser.y  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..7142490 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4218,6 +4218,10 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:1017
 		{
+			if yyDollar[1].columnType.Identity == nil {
+				yylex.Error("NOT FOR REPLICATION requires IDENTITY")
+				return 1
+			}
 			yyDollar[1].columnType.Identity.NotForReplication = true
 			yyVAL.columnType = yyDollar[1].columnType
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..1ba8d4a 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1015,6 +1015,10 @@ column_definition_type:
 // for MSSQL: IDENTITY(N,M) NOT FOR REPLICATION
 | column_definition_type NOT FOR REPLICATION
   {
+    if $1.Identity == nil {
+      yylex.Error("NOT FOR REPLICATION requires IDENTITY")
+      return 1
+    }
     $1.Identity.NotForReplication = true
     $$ = $1
   }
-- 
2.43.0


From 79f8f041644917cc25f58b8d01caebfd614af27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:44 +0000
Subject: [PATCH 18/22] fix: keep the index type of USING in a key instead of
 crashing when the key is added

---
 schema/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 215dbb8..ba3cd9f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -92,6 +92,15 @@ func parseLength(val *sqlparser.SQLVal) (*int, error) {
 	return &intVal, nil
 }
 
+// USING has the index type in place of a value
+func parseIndexOptionValue(option *sqlparser.IndexOption) *Value {
+	if option.Using != "" {
+		using := strings.ToLower(option.Using)
+		return &Value{valueType: ValueTypeStr, raw: []byte(using), strVal: using}
+	}
+	return parseValue(option.Value)
+}
+
 func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	columns := []Column{}
 	indexes := []Index{}
@@ -153,7 +162,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 				indexOptions,
 				IndexOption{
 					optionName: option.Name,
-					value:      parseValue(option.Value),
+					value:      parseIndexOptionValue(option),
 				},
 			)
 		}
@@ -251,7 +260,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 			indexOptions,
 			IndexOption{
 				optionName: option.Name,
-				value:      parseValue(option.Value),
+				value:      parseIndexOptionValue(option),
 			},
 		)
 	}
-- 
2.43.0


From 0110e9cbca6a0ca9ccd0a2d96d1ce738d8471df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 19/22] fix: state every option of a MySQL index, and its
 comment as a literal

---
 schema/generator.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2196868..c88fb42 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -942,11 +942,16 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 	if len(indexOptions) > 0 {
 		switch g.mode {
 		case GeneratorModeMysql:
-			indexOption := indexOptions[0]
-			if indexOption.optionName == "parser" {
-				indexOption.optionName = "WITH " + indexOption.optionName
+			for _, indexOption := range indexOptions {
+				optionValue := string(indexOption.value.raw)
+				switch indexOption.optionName {
+				case "parser":
+					indexOption.optionName = "WITH " + indexOption.optionName
+				case "comment":
+					optionValue = quoteLiteral(optionValue)
+				}
+				optionDefinition += fmt.Sprintf(" %s %s", indexOption.optionName, optionValue)
 			}
-			optionDefinition = fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
 		case GeneratorModeMssql:
 			options := []string{}
 			for _, indexOption := range indexOptions {
@@ -1615,12 +1620,15 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
+// The parser has decoded the literal, so encode it again
+func quoteLiteral(str string) string {
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(strings.ReplaceAll(str, "\\", "\\\\"), "'", "''"))
+}
+
 func generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		// The parser has decoded the literal, so encode it again
-		str := strings.ReplaceAll(strings.ReplaceAll(defaultVal.strVal, "\\", "\\\\"), "'", "''")
-		return fmt.Sprintf("DEFAULT '%s'", str), nil
+		return fmt.Sprintf("DEFAULT %s", quoteLiteral(defaultVal.strVal)), nil
 	case ValueTypeInt, ValueTypeFloat: // keep every digit
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-- 
2.43.0


From 1e5adc67c03f560b869ca28029dd24c285c313e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 20/22] fix: escape quotes in the values of ENUM and SET

---
 sqlparser/parser.go | 4 ++--
 sqlparser/parser.y  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 7142490..242b0ff 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4838,13 +4838,13 @@ yydefault:
 //line sqlparser/parser.y:1468
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, String(NewStrVal(yyDollar[1].bytes)))
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1473
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, String(NewStrVal(yyDollar[3].bytes)))
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 1ba8d4a..bf0d214 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1471,11 +1471,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, String(NewStrVal($1)))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, String(NewStrVal($3)))
   }
 
 length_opt:
-- 
2.43.0


From 2eee54703a47ae6bffdee3dc9ab2b31adcf8a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:26 +0000
Subject: [PATCH 21/22] fix: keep the values of a SET column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index c88fb42..faccf0e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -770,7 +770,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
-- 
2.43.0


From 9c00db96a36d054a3d3ef4dfa63d0f3fa60d67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 22/22] fix: keep the time zone of a type when it changes, and
 state it before the array

ALTER COLUMN ... TYPE left WITH TIME ZONE out, so that the column never got the type of the schema, and a column with an
array of such a type was added as timestamp[] WITH TIME ZONE, which is no type.
---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index faccf0e..0385d1e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -758,8 +758,11 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 func generateDataType(column Column) string {
 	suffix := ""
+	if column.timezone {
+		suffix += " WITH TIME ZONE"
+	}
 	if column.array {
-		suffix = "[]"
+		suffix += "[]"
 	}
 
 	if column.length != nil {
@@ -786,9 +789,6 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.unsigned {
 		definition += "UNSIGNED "
 	}
-	if column.timezone {
-		definition += "WITH TIME ZONE "
-	}
 
 	// [CHARACTER SET] and [COLLATE] should be placed before [NOT NULL | NULL] on MySQL
 	if column.charset != "" {
-- 
2.43.0

