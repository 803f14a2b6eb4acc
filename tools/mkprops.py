#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one readable source)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
G="schema/generator.go"
p("C01","Identifiers in generated SQL are quoted for the dialect and keep the exact name",
 "Every table, column, index, constraint, policy, view and trigger name that the planner writes into a statement is wrapped in the quotes of the target dialect (backquotes for MySQL and SQLite, double quotes for PostgreSQL, brackets for SQL Server), with a closing quote inside the name doubled so that reading the quoted text back gives exactly the original name. For PostgreSQL and SQL Server a table name is always schema-qualified, using 'public' or 'dbo' when the name carries no schema, and the schema and the table are quoted separately at the first dot.",
 ["inputs","configurations"],"every identifier string (any bytes, including quotes, dots and spaces) in every one of the four dialects",
 "The stable tests use a few plain names on SQLite only; the quoting for the other three dialects is never executed, and no test uses a name with a quote or a dot.",
 [G],[("quoting of names and schema qualification",G+": escapeSQLName, escapeTableName"),("every statement builder uses them",G)],["GenerateIdempotentDDLs"])
p("C02","A generated column definition states exactly the declared attributes",
 "When a column is added or changed, the column definition the planner writes contains the name, the data type (with length, scale, enum values and array suffix), and each of unsigned, time zone, character set, collation, NOT NULL or NULL, default, auto-increment, on-update, check, no-inherit, unique, and identity or sequence exactly when the desired column declares it, once each, in an order the database accepts. Nothing that was not declared appears, and a column attribute that cannot be expressed is an error and never silently dropped.",
 ["inputs","configurations"],"every combination of column attributes, in every dialect",
 "There are thousands of attribute combinations and four dialects; the stable tests execute only SQLite additions of a few simple columns.",
 [G],[("column definition builder",G+": generateColumnDefinition, generateDataType, generateSequenceClause")])
p("C03","A generated DEFAULT clause denotes the declared value",
 "The DEFAULT clause written for a column denotes the same value as the declared default: string defaults come out as a quoted literal that reads back to the same string, integer and decimal defaults keep every digit and the sign, bit values and keywords such as NULL or CURRENT_TIMESTAMP come out as written. A default of a kind that cannot be written is reported as an error.",
 ["inputs"],"every default literal: any string (quotes and backslashes included), any integer or decimal text, both bit values, any keyword",
 "Tests sample a handful of literals; loss of digits, range overflow and quote escaping need inputs outside the samples.",
 [G,"schema/parser.go"],[("default clause",G+": generateDefaultDefinition"),("literal conversion","schema/parser.go: parseValue, parseDefaultDefinition")])
p("C04","Generated index and key statements state exactly the declared index",
 "A statement that adds an index or primary key names the right table and index, states the right kind (unique, primary, clustered and so on as the dialect spells it), and lists exactly the declared columns in the declared order with their prefix lengths and descending markers, followed by the declared options and partition. A statement that drops an index names exactly that index, in the form the dialect requires.",
 ["inputs","configurations"],"every index definition with any number of columns and options, in every dialect",
 "The stable tests never generate an index from a table definition for MySQL, PostgreSQL or SQL Server.",
 [G],[("index statements",G+": generateAddIndex, generateIndexOptionDefinition, generateDropIndex")])
p("C05","Generated foreign key definitions state exactly the declared constraint",
 "A foreign key the planner adds carries the declared constraint name, index name, local columns and referenced columns in declared order, referenced table, and ON DELETE, ON UPDATE and NOT FOR REPLICATION exactly when declared. Replacing one drops the old constraint first, in the form the dialect requires, and a foreign key without a constraint name is rejected.",
 ["inputs","configurations"],"every foreign key with any number of columns and any options, in every dialect",
 "No stable test generates a foreign key statement.",
 [G],[("foreign key text",G+": generateForeignKeyDefinition"),("foreign key section of the table diff",G+": generateDDLsForCreateTable")])
p("C06","A schema that already matches needs no statements",
 "When a table's current definition and its desired definition are the same, the planner produces no statement for that table, in every dialect; the same holds for an index, policy, view and trigger that already exist with the same definition. Hence applying the same desired schema to a database that already has it changes nothing.",
 ["inputs","configurations","histories"],"every table, index, policy, view and trigger definition, in every dialect",
 "Idempotence must hold for every definition; tests check it for a dozen SQLite schemas.",
 [G],[("change detection",G+": haveSameColumnDefinition, haveSameDataType, areSame*"),("table diff",G+": generateDDLsForCreateTable")])
p("C07","A real difference in a definition is never overlooked",
 "Two column types, nullabilities, defaults, check constraints, identities, primary keys, indexes, foreign key actions, policies or trigger definitions that differ in an attribute the tool compares are reported as different, and ones that are equal (up to the documented normalisations: type aliases, implicit ascending order, omitted NO ACTION, letter case, one pair of outer parentheses) are reported as equal. The comparison does not depend on the order in which options or role names are listed.",
 ["inputs"],"every pair of definitions of the same kind",
 "A comparison that ignores one attribute in one corner passes every sampled pair.",
 [G],[("comparison predicates",G+": areSame*, haveSame*, normalizeDataType, normalizeOnUpdate, normalizeOnDelete")])
p("C08","Every missing object is created once, as the desired schema states it",
 "A table, index, policy, view or trigger in the desired schema that the current schema lacks leads to its creation statement exactly once, word for word where the desired schema has it as its own statement, and a missing column leads to exactly one ADD COLUMN on its table. Statements come out in the order of the desired schema.",
 ["inputs","configurations"],"every pair of current and desired schemas",
 "The quantifier ranges over pairs of schemas; tests sample a few pairs.",
 [G],[("planner main loop",G+": generateDDLs"),("per object planners",G+": generateDDLsForCreateIndex, generateDDLsForCreatePolicy, generateDDLsForCreateView, generateDDLsForCreateTrigger, generateDDLsForCreateTable")])
p("C09","An object is dropped exactly when the desired schema no longer has it",
 "A table, column, index, foreign key, policy or view is dropped if and only if it exists in the current schema and the desired schema no longer contains it (or its definition changed and it is re-created at once); nothing the desired schema still contains is ever dropped for good. When a whole table goes, only the table drop is issued for it.",
 ["inputs","configurations"],"every pair of current and desired schemas, with any number of tables, columns, indexes, keys, policies and views",
 "Losing data needs one unusual pair of schemas; tests sample a few SQLite pairs.",
 [G],[("clean-up phase",G+": generateDDLs"),("absence planners",G+": generateDDLsForAbsentColumn, generateDDLsForAbsentIndex, generateDDLsForAbsentForeignKey")])
p("C10","Generated statements come in an order the database can execute",
 "Within a table the planner removes auto-increment before touching keys and adds it only after keys exist, drops a constraint or index before adding its replacement, and drops foreign keys before indexes and indexes before columns; a statement that builds on an object comes after the statement that creates it.",
 ["inputs","configurations"],"every pair of current and desired definitions of a table",
 "Order only matters for combined changes, which no stable test makes.",
 [G],[("section order",G+": generateDDLsForCreateTable, generateDDLs, generateDDLsForAbsentColumn")])
p("C11","A broken desired schema is rejected before anything runs",
 "An index, policy or foreign key for a table that is not defined, or an index, policy, view or foreign key defined twice, is reported as an error and no plan is returned for it; an error in any part of planning makes the whole planning fail, so that nothing is executed.",
 ["inputs"],"every desired schema, valid or not",
 "Error paths are reached by a few samples; an error that is swallowed for one kind of statement stays unseen.",
 [G,"sqldef.go"],[("error returns",G+": generateDDLs, generateDDLsForCreateIndex, generateDDLsForAddForeignKey, generateDDLsForCreatePolicy, generateDDLsForCreateView, convertDDLsToTables"),("no execution after an error","sqldef.go: Run")])
p("C12","Dry run, export and an empty plan never execute anything",
 "With export or dry run requested, or when there is nothing to change, no statement is executed on the database and no transaction is opened; export prints the dumped schema only, dry run prints the plan only.",
 ["inputs","configurations","fault_sequences"],"every combination of options, current schema and desired schema",
 "Tests look at printed text for a few runs, not at the absence of writes over all option combinations.",
 ["sqldef.go"],[("mode dispatch","sqldef.go: Run, showDDLs")])
p("C13","Skip-drop suppresses every destructive statement and only those",
 "With skip-drop requested, no statement that contains DROP is executed; every other statement is executed, in plan order. Without it, every statement of the plan is executed in order.",
 ["inputs","configurations"],"every plan (any number of statements, any text), with and without the option",
 "Tests run one or two plans.",
 ["adapter/database.go","sqldef.go"],[("drop filter","adapter/database.go: RunDDLs; sqldef.go: showDDLs")])
p("C14","Applying is one transaction and every failure is reported",
 "The statements of a plan are executed one after another in a single transaction; at the first failure nothing further is executed, the transaction is rolled back and the error is reported. Success is reported only if every statement succeeded and the transaction was committed.",
 ["inputs","fault_sequences","crash_points"],"every plan and every possible failure point: begin, any statement, commit",
 "Failures of begin, commit or of the n-th statement cannot be provoked by the existing tests.",
 ["adapter/database.go"],[("transaction discipline","adapter/database.go: RunDDLs")])
p("C15","Dry run shows exactly what applying would do",
 "For the same plan and options, dry run prints the same statements in the same order, with the same ones marked as skipped, as applying prints and executes.",
 ["inputs","configurations"],"every plan, with and without skip-drop",
 "The two printers are separate code; tests compare them for a few plans only.",
 ["sqldef.go","adapter/database.go"],[("two printers","sqldef.go: showDDLs; adapter/database.go: RunDDLs")])
p("C16","The dump covers every table, view and trigger and hides no error",
 "The dumped schema contains the definition of every table the database lists, then every view, then every trigger, each exactly once, in the listed order, separated so that it can be parsed again; if listing or dumping any of them fails, the dump fails with that error.",
 ["inputs","fault_sequences"],"every set of tables, views and triggers and every failing catalog call",
 "The failing call and the number of objects are unbounded; tests use up to two tables and no failures.",
 ["adapter/database.go"],[("dump","adapter/database.go: DumpDDLs")])
p("C17","Catalog queries return every row and report every error",
 "The adapters return every row a catalog query yields, in order and unchanged, and report an error if the query, reading a row, or the row stream fails.",
 ["inputs","fault_sequences"],"every result set and every failure point of it",
 "Row-stream failures cannot be provoked by the existing tests, and three of the four adapters are not run at all.",
 ["adapter/sqlite3/sqlite3.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go"],[("row loops","adapter/*/*.go")])
p("C18","Reconstructed table definitions state what the catalog says",
 "For PostgreSQL and SQL Server the table definition rebuilt from the catalog lists every column, key, index, foreign key and policy the catalog reports, each once and in order, with its type, nullability, default, identity, check and options exactly as reported.",
 ["inputs"],"every catalog content",
 "The reconstruction is never executed by the stable tests (no server).",
 ["adapter/postgres/postgres.go","adapter/mssql/mssql.go"],[("definition builders","adapter/postgres/postgres.go: buildDumpTableDDL; adapter/mssql/mssql.go: buildDumpTableDDL")])
p("C19","Connection strings carry the exact connection settings",
 "The connection string built for a server decodes to exactly the configured user, password, host, port, socket and database, for any characters in them.",
 ["inputs","configurations"],"every user, password, host, socket, port and database name",
 "No stable test builds a MySQL, PostgreSQL or SQL Server connection string.",
 ["adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go"],[("DSN builders","adapter/*/*.go: *BuildDSN")])
p("C20","Parsed definitions carry every declared attribute into the planner",
 "Converting a parsed statement into the planner's model keeps the statement text, the name (PostgreSQL names qualified with 'public' when unqualified), every column, index, foreign key, policy, view and trigger attribute, in order and unchanged; literal values keep their kind and text; a kind of statement that cannot be converted is an error.",
 ["inputs","configurations"],"every parsed statement, in every dialect",
 "Attributes lost in conversion only show for definitions that use them; most are unused in the stable tests.",
 ["schema/parser.go"],[("model conversion","schema/parser.go: parseDDL, parseTable, parseIndex, parseValue, normalizedTableName, normalizeCollate, parseIdentity, parseIdentitySequence, parseDefaultDefinition")])
p("C21","The SQL tokenizer and parser never crash and always terminate",
 "For every input text and dialect, tokenizing and parsing end with a result or an error; no input makes them panic, read outside the text or loop forever.",
 ["inputs"],"every byte string, in every dialect (exhaustion of memory or of the stack by texts of tens of megabytes apart)",
 "Crashes sit at odd inputs (truncated comments, unterminated strings); tests sample none of them systematically.",
 ["sqlparser/token.go","sqlparser/comments.go"],[("scanner","sqlparser/token.go: Scan and scan*; sqlparser/comments.go")])
p("C22","Encoding a value as SQL text and reading it back is lossless",
 "Encoding a string, byte or number value as SQL text gives one literal that the tokenizer reads back to exactly the same value, whatever bytes the value holds; encoding a tuple or row list keeps all values in order.",
 ["inputs"],"every byte string and every list of values",
 "There are 256 byte values in any position; tests sample a few strings.",
 ["sqlparser/dependency/sqltypes/value.go","sqlparser/encodable.go","sqlparser/token.go"],[("escaping tables","sqlparser/dependency/sqltypes/value.go: encodeBytesSQL, SQLEncodeMap, SQLDecodeMap"),("encoders","sqlparser/encodable.go")])
p("C23","Comment handling never loses or changes statement text",
 "Splitting a statement into leading comments, query and trailing comments gives pieces that put together are the original text; stripping comments removes comments only and keeps the statement.",
 ["inputs"],"every statement text with any comments and white space",
 "Tests sample some thirty texts; nesting and truncation patterns are unbounded.",
 ["sqlparser/comments.go"],[("comment splitting","sqlparser/comments.go: SplitMarginComments, StripLeadingComments, leadingCommentEnd, trailingCommentStart")])
p("C24","Value and bind-variable types are classified and validated consistently",
 "Every column type belongs to exactly the classes it should (integral, signed, unsigned, float, quoted, text, binary) with a lossless mapping to and from the wire types, and a value or bind variable is accepted only if its text fits its declared type.",
 ["inputs"],"every type code, flag combination, and value text",
 "Classification is a product of type codes and flags, of which the tests sample part.",
 ["sqlparser/dependency/sqltypes/type.go","sqlparser/dependency/sqltypes/value.go","sqlparser/dependency/sqltypes/bind_variables.go"],[("type classes","sqlparser/dependency/sqltypes/type.go"),("validation","sqlparser/dependency/sqltypes/bind_variables.go: ValidateBindVariable")])
p("C25","Bind-variable substitution produces the query with the given values in place",
 "Substituting bind variables gives the original query text with each placeholder, and nothing else, replaced by the encoding of its value, in order; a missing or mistyped variable is an error.",
 ["inputs"],"every query with any number of placeholders and every set of values",
 "The number and position of placeholders is unbounded.",
 ["sqlparser/parsed_query.go","sqlparser/tracked_buffer.go","sqlparser/dependency/bytes2/buffer.go"],[("substitution","sqlparser/parsed_query.go: GenerateQuery, EncodeValue, FetchBindVar"),("output buffer","sqlparser/dependency/bytes2/buffer.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
