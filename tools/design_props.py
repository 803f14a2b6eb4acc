# per property: how it is decided, oracle, why that reaches what tests cannot
D = {
"C01": ("escapeSQLName and escapeTableName are specified by what the dialect's reader makes of the text; a bounded stand-in reads quoted names back as a database does. Every statement builder of the planner is specified with these functions at each name, so an unquoted name fails that builder's postcondition.",
        "All strings and dialects; the stable tests run SQLite with plain names."),
"C02": ("generateColumnDefinition and generateDataType are specified attribute by attribute (a list of parts, each present exactly when declared); the callers (ADD COLUMN, CHANGE/MODIFY, SET/DROP NOT NULL, ...) are specified over it. Bounded: columns drawn at random, written by generateColumnDefinition and read again by the real parser, are the same columns (`columnDefinitionsReadBack`).",
        "All combinations of about 20 attributes and 4 dialects."),
"C03": ("generateDefaultDefinition against an independent reading of the literal by value kind, and where it appears in a statement. The same read-back (`columnDefinitionsReadBack`).", "All texts of the literal."),
"C04": ("generateAddIndex, generateDropIndex, generateIndexDefinition helpers: columns, prefix lengths, direction, options, partition in order (loops as closed forms). Bounded: keys drawn at random are written and read again (`keysReadBack`).", "Any number of columns and options."),
"C05": ("generateForeignKeyDefinition, the code that adds/replaces a foreign key inside the table diff. Bounded: foreign keys drawn at random are written and read again (`keysReadBack`).", "Any number of columns; every dialect."),
"C06": ("The comparison functions (areSame..., haveSame...) under contract with reflexivity/symmetry lemmas, and generateDDLsForCreateTable: equal current and desired table give the empty list (lemma over the contract), with clean-up.", "All tables: quantifies over pairs of schemas."),
"C07": ("The same comparison functions, specified independently of option order; the lemmas state that the difference in each compared attribute is seen.", "All pairs of definitions."),
"C08": ("generateDDLs, generateDDLsForCreateTable/-CreateIndex/-CreatePolicy/-CreateView/-CreateTrigger/..., generator state (current/desired lists) as modified heap; the main loops in lockstep.", "Any number of objects in any order."),
"C09": ("The clean-up loops of generateDDLs, the DROP parts of the table diff, the find/contains/remove helpers.", "All pairs of schemas."),
"C10": ("The order of the emitted list is part of the postcondition of the table diff and of generateDDLs.", "All pairs of tables, combinations of changes."),
"C11": ("The errors of the lookups and the error paths: result and error are part of every postcondition. Bounded: broken statements are errors (`brokenTextsAreErrors`), planning of arbitrary pairs of schemas ends with a plan or an error (`plansAreMade`).", "All schemas, error at any step."),
"C12": ("sqldef.Run, its helpers and the history of external effects: with export/dry run/empty plan the history has no Begin/Exec.", "Every behaviour of the database, file system and planner."),
"C13": ("RunDDLs: which lines are executed, over the history of effects, loop in lockstep.", "Any plan; any database behaviour."),
"C14": ("RunDDLs: begin, exec, rollback, commit and returned error over every outcome of every call.", "Failure at every point, any plan length."),
"C15": ("RunDDLs and showDDLs under contract over the same plan: lines printed are compared by a lemma.", "Any plan."),
"C16": ("DumpDDLs and the table/view/trigger lists: history of calls of the adapter and resulting text.", "Any number of objects; failure at every point."),
"C17": ("Every catalog query of the four adapters: rows in order, error of Query, Scan and Rows.Err reported; each loop in lockstep.", "Any row stream, NULLs, errors at any row."),
"C18": ("buildDumpTableDDL, GetDataType, getColumns, getIndexDefs, ... of PostgreSQL and SQL Server.", "Needs real servers otherwise; all catalog contents."),
"C19": ("The DSN builders: exactly the configured settings reach the encoder of the driver or net/url.", "All characters."),
"C20": ("Every function of schema/parser.go, field by field; parsing is an uninterpreted function of text and dialect. The entry point ParseStrictDDLWithMode is under contract over the generated parser as an external function that fills the tokenizer (`changes`): an error is never swallowed and the mode reaches the tokenizer. What the generated parser makes of a text is bounded: statements drawn at random as models are written in random spelling and read back field by field (`writtenTextsAreRead`), and broken ones are errors (`brokenTextsAreErrors`).", "All parse trees."),
"C21": ("Safety contracts with object invariants and measures on every tokenizer function and on comment directives. The goyacc parser (tables + 600 actions) is outside what the symbolic executor can finish, so `parserTotal` is a bounded stand-in: a text for every step of the automaton taken from its own tables, random sentences and scrambles of them, in every dialect.", "All texts for the tokenizer; bounded for the parser."),
"C22": ("EncodeSQL of values, encodeBytesSQL, the tuple/row writers; the escape tables of init as ghost tables with the inverse property as a lemma. That the tokenizer reads the literal back is bounded (`literalsReadBack`).", "All byte strings."),
"C23": ("SplitTrailingComments, StripLeadingComments, StripComments, leadingCommentEnd, trailingCommentStart, SplitMarginComments: loops in lockstep; the concatenation as lemma/ensures.", "All texts, all nestings."),
"C24": ("Is* predicates, SQLToMySQL/MySQLToSQL conversions, NewValue, BuildValue, bind-variable conversions and validation.", "All types and values."),
"C25": ("ParsedQuery.GenerateQuery, FetchBindVar, EncodeValue, InsertValues/TupleEqualityList encoders. The plan values (PlanValue.ResolveValue, ResolveList and their helpers) are under contract; ResolveRows is bounded.", "Any number of placeholders and lists."),
}
