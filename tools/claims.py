N = "no contract of this property is discharged yet"
BASE = ("Every obligation generated from the current source of the functions under contract is discharged for all inputs "
        "(machine integers treated as unbounded, contracts on standard library functions built into the verifier are trusted). ")
CLAIMED = {
 "C01": [BASE + "Quoting functions and every statement-writing function of the planner under contract. A bounded stand-in reads quoted names back as a database does."],
 "C02": [BASE + "generateColumnDefinition and generateDataType under contract, and their callers. Bounded: random columns are written and read back by the real parser."],
 "C03": [BASE + "generateDefaultDefinition under contract against an independent reading of the literal. Bounded: random columns are written and read back."],
 "C04": [BASE + "generateAddIndex, generateDropIndex and their helpers under contract. Bounded: random keys are written and read back."],
 "C05": [BASE + "generateForeignKeyDefinition and the code that replaces a foreign key under contract. Bounded: random foreign keys are written and read back."],
 "C06": [BASE + "The comparison functions and generateDDLsForCreateTable (all statements of a table diff) under contract."],
 "C07": [BASE + "The comparison functions under contract, independent of option order."],
 "C08": [BASE + "generateDDLs, the table diff and the steps for every kind of statement under contract; the loops of generateDDLs are cut in lockstep with the contract's."],
 "C09": [BASE + "generateDDLs (including its clean-up loops), the table diff and the lookups under contract."],
 "C10": [BASE + "generateDDLs and the table diff under contract: the order of the emitted statements is the contract's."],
 "C11": [BASE + "The lookups and the error paths of the planner's functions under contract. Bounded: broken texts are errors, planning of random schemas does not crash."],
 "C12": [BASE + "sqldef.Run, RunDDLs and their helpers under contract with the history of external effects (database calls, output, file reads, exits) as ghost state; database/sql, files and the planner are external and may answer anything. parseOptions and main of the four commands under contract: the flags reach Run as given (go-flags is modelled by its struct tags)."],
 "C13": [BASE + "RunDDLs under contract over the history of external effects; its loop is cut in lockstep with the contract's. parseOptions of the four commands under contract: --skip-drop reaches Run."],
 "C14": [BASE + "RunDDLs under contract over the history of external effects (begin, exec, rollback, commit and the returned error); database/sql may answer anything."],
 "C15": [BASE + "RunDDLs and showDDLs under contract over the same plan lines; parseOptions and main of the four commands under contract."],
 "C16": [BASE + "DumpDDLs under contract over the history of external effects; the adapter may answer anything; its loops are cut in lockstep with the contract's."],
 "C17": [BASE + "Every catalog query of the four adapters under contract over the history of database calls; database/sql may answer anything (rows, NULLs, errors at any point); row loops are cut in lockstep with the contract's."],
 "C18": [BASE + "getColumns, getIndexDefs, getPrimaryKeyColumns, getForeginDefs/getForeignDefs, getPolicyDefs, buildDumpTableDDL and DumpTableDDL of both adapters under contract. Domain: the catalog names defaults, identity values and checks that it reports, and lists an index before its columns; the index of a primary key is recognised by its name, as the code does."],
 "C19": [BASE + "parseOptions and main of the four commands, NewDatabase of the four adapters and the three connection string builders under contract: they hand exactly the configured settings to the encoder of the driver or of net/url, whose output is assumed to decode to its input (trusted library contract)."],
 "C21": [BASE + "Safety contracts (no panic, no access outside the text, invariants, termination measures on loops) on every function of the tokenizer and on the comment directives. Assumed: the tokenizer reads from a string (as everywhere in sqldef), fewer than about ten million empty special comments in a row (each one is a nested call). The generated parser is covered by a bounded check only: sentences made from its own tables, and changes of them, in every dialect."],
 "C22": [BASE + "The two literal writers (EncodeSQL and the writer of quoted literals) under contract, the escape tables of init as ghost tables with the inverse property as a lemma. That the tokenizer reads the literals back is checked by a bounded stand-in (every text of at most two bytes, random longer ones, in every dialect); EncodeASCII by another one."],
 "C23": [BASE + "The functions of comments.go that split and strip comments under contract; loops cut in lockstep with the contracts'."],
 "C24": [BASE + "The type predicates and conversions of sqltypes, and the conversions between Go values, sqltypes values and bind variables under contract. BuildBindVariable(s), Validate/Copy/BindVariablesEqual: bounded stand-in."],
 "C25": [BASE + "GenerateQuery, FetchBindVar, EncodeValue and the encoders of inserted values and tuple lists, and the resolution of plan values under contract (ResolveRows: bounded); an Encodable appends text that depends on it alone (assumption on the interface)."],
 "C20": [BASE + "Every function of schema/parser.go under contract, attribute by attribute. sqlparser.String and ParseStrictDDLWithMode are uninterpreted functions of their arguments; the nodes that the parser builds are assumed to be complete (no nil list entries, value kinds within the enumeration); ParseStrictDDLWithMode is itself under contract over the generated parser. Bounded: random statements written from a model and read back."],
}
NA = {f"C{i:02d}": N for i in range(1, 26)}
