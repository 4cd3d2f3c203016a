#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as source so that the file stays consistent).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B, T = "storage/basic/basic.go", "storage/basic/btree.go"
prop("C01", "Committed transactions are visible in full to every later transaction",
 "When a commit of a storage transaction succeeds, every later transaction sees every table and row exactly as the committing transaction last saw them: nothing is lost, duplicated, altered or partly applied. A commit of a transaction which changed nothing leaves everything as it was, and reads never change data.",
 ["histories", "inputs"], "every sequence of transactions, each any mix of table creation and dropping, inserts, cursor updates, cursor deletes and scans",
 "The storage tests replay one fixed script per case; none compares the whole database before and after arbitrary sequences of mixed operations.",
 [B, T], [("copy-on-write tree swapped in at commit", B + ": Commit, forWrite")],
 [("committed contents", "tables and rows visible to new transactions", B + ": store"), ("working contents", "what the open transaction sees", B + ": transaction")],
 ["scan of all tables by a fresh transaction"])
prop("C02", "A rolled back transaction leaves no trace",
 "When a storage transaction is rolled back, every later transaction sees all tables and rows exactly as they were when the rolled back transaction began, whatever it created, dropped, inserted, updated or deleted, including work that failed half way.",
 ["histories", "inputs"], "every history of transactions and every mix of operations before the rollback",
 "The tests roll back a handful of fixed scripts and check only the rows they inserted.",
 [B, T], [("uncommitted work is done on a private clone", B + ": forWrite, Rollback")],
 [("committed contents", "tables and rows visible to new transactions", B + ": store")], ["scan of all tables by a fresh transaction"])
prop("C03", "Concurrent transactions behave as if run one at a time",
 "However many goroutines run storage transactions at once, there is one order of the transactions, consistent with the real time order of those that did not overlap, in which running them one at a time gives every read and every result observed. No update is lost and no transaction ever sees uncommitted or half committed work of another.",
 ["schedules", "histories"], "every interleaving of any number of concurrent transactions, committed or rolled back",
 "No storage test runs two transactions concurrently.",
 [B], [("store lock held from begin to commit or rollback", B + ": Begin, Commit, Rollback")],
 [("store lock", "held by the one open transaction", B + ": store")], ["begin, commit and rollback returns", "scan results"])
prop("C04", "No two rows of a table ever share a primary key",
 "At every moment, no two rows of a table visible to any transaction have equal primary keys (compared column by column, with NULL equal to NULL), whatever the key columns, their types and their ascending or descending order. Inserting a row, or changing a row's key, to a key already present is refused, and is accepted when the key is free, including keys freed earlier in the same transaction.",
 ["histories", "inputs"], "every history of inserts, updates and deletes on every key shape",
 "Tests try a few duplicate keys on integer keys; they do not cover key changes through updates, keys freed in the same transaction, and composite, descending, string, bytes, float and NULL keys.",
 [B, "encode/key.go"], [("existence check before insert", B + ": Insert"), ("key change as delete and insert", B + ": rowRef.Update")], None, ["insert and update results", "scan"])
prop("C05", "A refused insert or update changes nothing",
 "When inserting rows or updating a row is refused for any reason (duplicate key, value that cannot be converted or is too long, missing required value, too many values), the transaction continues and its tables hold exactly the rows they held before that operation. In particular none of the rows of a multi-row insert is kept and the row being updated keeps its old contents.",
 ["histories", "inputs", "fault_sequences"], "every operation that is refused, at every position of the offending row or value, in every state",
 "Tests check that an operation fails, not that the data is untouched afterwards, and mostly stop at the failure.",
 [B, "types/value.go"], [("all rows converted and checked before the tree is replaced", B + ": Insert, rowRef.Update")], None, ["scan in the same transaction after the refusal"])
prop("C06", "Range scans return exactly the matching rows in key order",
 "A scan returns every row of its table whose primary key is at or above the lower bound and at or below the upper bound (either may be absent) and which satisfies the predicate if one is given, each exactly once, in ascending order of the primary key under the declared ascending or descending direction of each key column with NULL first. It returns the requested columns in the requested order and no other rows, and ends with end-of-rows.",
 ["inputs", "histories"], "every table contents, bounds, predicate, projection and key shape",
 "Tests scan a few small integer keyed tables with a few bounds.",
 [B, T, "encode/key.go"], [("ordered walk from the lower bound", B + ": Rows"), ("item ordering", T + ": lessItems")], None, ["rows returned by cursors"])
prop("C07", "A scan is a stable snapshot and transactions read their own writes",
 "The rows a cursor returns are those its table held when the cursor was opened, whatever its transaction inserts, updates, deletes or drops while the cursor is open. A cursor opened later in the same transaction reflects all of the transaction's earlier successful changes and none of its refused ones.",
 ["histories"], "every interleaving of changes with open cursors in one transaction",
 "Tests seldom change a table while a cursor is open on it and never with several cursors open.",
 [B], [("rows collected when the cursor is opened", B + ": Rows")], [("open cursors", "snapshots with a position", B + ": rows")], ["rows returned by cursors"])
prop("C08", "Updating or deleting through a cursor affects exactly that row",
 "Updating through a cursor changes exactly the named columns of exactly the row the cursor is at, moving it when its key changes, and deleting through a cursor removes exactly that row. All other rows and all other tables keep their contents.",
 ["histories", "inputs"], "every table contents, cursor position, column set and key change",
 "Tests update and delete with fixed scripts on small tables and single column integer keys.",
 [B], [("row reference holds the key", B + ": rowRef"), ("key change detection", "types/column.go: ColumnKeyUpdated")], None, ["scan after each update or delete"])
prop("C09", "Stored rows always conform to their column types",
 "Every value a table ever returns has its column's type, is not NULL when the column forbids NULL, and fits the declared size of the column, no matter through which operation (insert, short row, update with or without key change) it was stored. A value given with another convertible type is stored as the converted value; one that cannot be converted or does not fit is refused.",
 ["inputs", "histories"], "every column type, size and nullability, every value and every operation that stores values",
 "Conversion tests call the conversion function directly; no test updates a column with a value of the wrong type, NULL or too long.",
 [B, "types/value.go"], [("row conversion before storing", B + ": Insert, rowRef.Update"), ("value conversion", "types/value.go: ConvertValue, ConvertRow")], None, ["insert and update results", "scan"])
prop("C10", "Tables are independent and dropping a table discards its rows",
 "Operations on one table never change or reveal the rows of another, whatever their ids, keys and contents. After a table is dropped it cannot be opened, and a table created again under the same id starts empty.",
 ["histories", "configurations"], "every set of tables, with adjacent and extreme ids, and every history of creation, dropping and recreation",
 "Tests work on one or two tables and never recreate a dropped table that had rows.",
 [B, T], [("relation id prefix of every item", T + ": toRelationId"), ("rows removed with the table", B + ": DropTable")], None, ["scan of all tables"])
prop("C11", "Misuse of transactions, tables and cursors is refused without effect",
 "Completing a transaction that is already completed, completing one with open cursors, moving, reading or closing a closed cursor, taking the current row before the first row, opening or dropping a table that does not exist or creating one that does, an invalid table definition, and changing or deleting a row that is gone are all refused. A refusal changes no data, and a transaction refused completion can still be used and completed.",
 ["histories", "fault_sequences"], "every history ending in a misuse and what follows it",
 "Tests check isolated misuses and then abandon the store; they do not check that the store and the transaction remain intact.",
 [B], [("lifecycle checks", B + ": Commit, Rollback, Next, Current, Close, CreateTable, OpenTable, DropTable")], None, ["results of the calls", "scan afterwards"])
prop("C12", "A table's definition is kept exactly and must be matched to open it",
 "A table can be opened in any later transaction with exactly the name, column names, column types and primary key it was created with, and reports them unchanged, for every identifier (keywords, quoted and unquoted, any characters). Opening it with any of them different is refused.",
 ["inputs", "configurations", "histories"], "every table definition and every deviation from it",
 "Tests create a few tables with plain lower case names.",
 [B, "types/identifier.go", "types/column.go"], [("encoded definition stored with the data", B + ": setTableType, getTableType"), ("comparison on open", B + ": OpenTable")], None, ["open results", "reported definition"])
prop("C13", "Stored data cannot be changed except through the storage operations",
 "Changing a row, or the bytes of a value, that was passed to an insert or update after the call returns, or changing a row or value returned by a scan, never changes what any scan returns, in this or any other transaction.",
 ["inputs", "histories"], "every row shape and every later mutation by the caller",
 "Tests never modify the rows they pass or receive.",
 [B, "engine/typedtable.go"], [("copies at the boundary", B + ": copyRow")], None, ["scan after the caller changes its memory"])
prop("C14", "Key encoding preserves order and distinguishes different keys",
 "For any two rows and any list of key columns, each ascending or descending, comparing the encoded keys as bytes gives the order of the key values column by column: NULL first, then booleans, integers, floats, strings and bytes by value, reversed for descending columns. Encoded keys are equal only for equal key values.",
 ["inputs"], "every pair of rows over all value types, including empty and zero-filled strings and bytes, extreme integers and floats, infinities, NaN and signed zero, under every direction",
 "The test compares a list of about thirty hand picked values.",
 ["encode/key.go", "encode/encode.go"], [("tag and escaped or big endian value", "encode/key.go: MakeKey")], None, ["encoded keys"])
prop("C15", "Variable length integers decode to what was encoded",
 "Encoding any unsigned or signed 64 bit integer with the variable length encodings and decoding the result, followed by any other bytes, gives back the integer and exactly the bytes that follow. Input that ends before the number does, or that is too long for 64 bits, is reported and never decoded to a number, and no shorter encoding of the number exists.",
 ["inputs"], "every 64 bit integer, every suffix and every truncation",
 "The tests try about thirty numbers without suffixes or truncation.",
 ["encode/encode.go"], [("varint and zigzag", "encode/encode.go: EncodeVarint, DecodeVarint, EncodeZigzag64, DecodeZigzag64")], None, ["encoder output", "decoder output"])
prop("C16", "Comparing values is a total order that agrees with key order",
 "Comparing values orders NULL before booleans before numbers before strings before bytes, integers and floats by exact numeric value, and strings and bytes by bytes; it is antisymmetric and transitive over all values. Within one column type it agrees with the order of encoded keys.",
 ["inputs"], "every pair and triple of values, including integers beyond the precision of floats, infinities and NaN",
 "The test compares about twenty pairs.",
 ["types/value.go", "encode/key.go"], [("type rank then value", "types/value.go: Compare")], None, ["comparison results"])
prop("C17", "Value conversion gives exactly the documented value or is refused",
 "Converting a value to a column type gives the same value in the column's type (numbers written as text, text read as numbers or booleans ignoring surrounding blanks, bytes as text only when valid UTF-8, floats truncated to integers) or is refused when there is none, when it is NULL for a NOT NULL column, or when it does not fit the column's size. Converting an already converted value again changes nothing.",
 ["inputs"], "every value and every column type, size and nullability, in particular at and just beyond each limit",
 "The tests convert a few dozen hand picked values, mostly far from the limits.",
 ["types/value.go"], [("cast then size check", "types/value.go: CastValue, ConvertValue, ConvertRow")], None, ["conversion results"])
prop("C18", "Identifiers are equal exactly when SQL says their names are",
 "Two unquoted names denote the same identifier exactly when they are equal ignoring case; two quoted names exactly when they are equal; an unquoted and a quoted name exactly when the unquoted one is not a keyword and its lower case is the quoted one; names are compared on their first 128 bytes. An identifier's text is the name (lower case if unquoted, upper case for a keyword) and identifiers made concurrently by any number of goroutines obey the same rules.",
 ["inputs", "schedules"], "every pair of names, quoted or not, in any letter case and script, and every interleaving of goroutines creating and reading identifiers",
 "Tests compare a couple of dozen names; the concurrent test never reads names while others are being created.",
 ["types/identifier.go"], [("interning tables under a lock", "types/identifier.go: ID, lookupID, String")], [("identifier tables", "name to identifier and back", "types/identifier.go: identifiers, names")], ["identifier equality", "identifier text"])
prop("C19", "Stored identifiers and table definitions decode to themselves",
 "Any identifier, and any table definition made of identifiers, column types and key columns, that is encoded for storage and decoded again is equal to the original, including identifiers that are keywords and quoted identifiers that look like keywords.",
 ["inputs"], "every identifier and every table definition",
 "Tests encode a few definitions with plain names.",
 ["types/identifier.go", "engine/engine.go"], [("keyword flag in the encoding", "types/identifier.go: GobEncode, GobDecode"), ("definition encoding", "engine/engine.go: Encode, DecodeTableType")], None, ["decoded identifier or definition"])
E_ = "engine/engine.go"
prop("C20", "The catalog tracks databases and schemas exactly",
 "After any sequence of creating and dropping databases and schemas, the listed databases and the listed schemas of each database are exactly those created (or present at initialization) and not since dropped. Creating one that exists, creating or listing schemas in a database that does not exist, dropping one that does not exist (unless 'if exists' is given) and unknown database options are refused and change nothing.",
 ["histories", "inputs"], "every history of catalog operations over any names, including names that are prefixes of each other",
 "Tests run a few fixed scripts with two or three names.",
 [E_, "engine/init.go", "engine/typedtable.go"], [("system tables keyed by name", E_ + ": CreateDatabase, DropDatabase, ListDatabases, CreateSchema, DropSchema, ListSchemas")],
 [("databases and schemas", "rows of the system tables", E_)], ["list results", "operation results"])
prop("C21", "Created tables are found with their definition and a table id of their own",
 "A table created in an existing schema can be opened by its full name and by no other, with exactly the column names, column types and primary key it was created with; creating one in a missing schema or under a taken name, and opening one that was not created, are refused. Every created table has an id of its own, at least 512, different from that of every other table ever created in a committed transaction, and increasing in order of creation.",
 ["histories", "inputs"], "every history of creating and opening tables in any databases and schemas, over committed and rolled back transactions",
 "Tests create a few tables in one schema and check the next id once.",
 [E_, "engine/init.go"], [("sequence row updated in the creating transaction", E_ + ": nextTableId"), ("catalog row per table", E_ + ": CreateTable, OpenTable")],
 [("next table id", "row of the sequences table", E_)], ["open results", "table ids"])
prop("C22", "Catalog changes belong to their transaction",
 "Schemas and tables created or dropped in a transaction are visible to the rest of that transaction at once, to all later transactions after it commits, and to none after it is rolled back, in every combination; a refused catalog operation has no effect on the rest of its transaction. Using a transaction which was completed is refused.",
 ["histories"], "every history of engine transactions mixing successful and refused catalog operations and ending in commit or rollback",
 "Tests commit nearly always; rollback of catalog changes is checked by one or two scripts.",
 [E_], [("catalog rows written through the caller's storage transaction", E_ + ": transaction")], None, ["catalog lists and open results inside and after the transaction"])
prop("C23", "Typed tables store and find Go structures faithfully",
 "Any structure of a typed table's type, with any field values including absent optional fields, that is inserted comes back from lookup by its primary key and from scans unchanged; updating a subset of fields changes exactly those fields of exactly the selected rows; deleting removes exactly the selected rows. Column names, types and nullability derived from the structure are the documented ones.",
 ["inputs", "histories"], "every structure type of supported field kinds, every field values and every sequence of typed operations",
 "Tests use a handful of structures with few values.",
 ["engine/typedinfo.go", "engine/typedtable.go"], [("reflection mapping", "engine/typedtable.go: structToRow, RowToStruct, structToColsVals")], None, ["structures returned", "derived definition"])
S_ = "evaluate/session.go"
prop("C24", "A session's transaction commands work as SQL defines them",
 "Without an open transaction each statement takes effect by itself: all of it if it succeeds, none of it if it is refused. Between begin and commit or rollback all statements of the session belong to one transaction, which commit makes permanent and rollback discards; a refused statement leaves the transaction open; begin inside a transaction, commit or rollback outside one, and creating or dropping databases inside one are refused without effect.",
 ["histories"], "every sequence of statements in any number of sessions of one server",
 "There is no compiled test of sessions' transaction handling: the package's tests do not build.",
 [S_, "evaluate/evaluate.go"], [("session state machine", S_ + ": Evaluate")], [("open transaction", "the session's transaction if begun", S_ + ": Session")], ["statement results", "catalog afterwards"])
prop("C25", "Unqualified names resolve to the session's current database and schema",
 "A table name without database is looked up in the session's current database, and without database and schema also in its current schema; a schema name without database in the current database; qualified parts are never changed. Setting the current database or schema affects later statements of that session only, and nothing else changes them.",
 ["histories", "programs"], "every sequence of settings and statements with every form of name in every statement kind that names a table or schema",
 "There is no compiled test of name resolution in sessions.",
 [S_, "parser/sql/datadef.go", "parser/sql/query.go"], [("resolution before evaluation", S_ + ": ResolveTable, ResolveSchema, set")], [("current database and schema", "defaults of the session", S_ + ": Session")], ["resolved statements", "catalog effects"])
prop("C26", "A statement that fails in any way never blocks or damages the database",
 "After a statement outside a transaction fails in any way, including statements the server does not support and values it cannot store, no transaction remains open: other sessions can begin transactions at once and see the database as it was before the failed statement. A COMMIT that fails has ended its transaction without effect.",
 ["histories", "fault_sequences"], "every failing statement in every state, followed by any other statement of any session",
 "There is no compiled test of sessions; engine tests never continue after a panic.",
 [S_, E_, "evaluate/evaluate.go"], [("completion of the statement's transaction on every path", S_ + ": Evaluate, " + E_ + ": withTransaction")], None, ["whether later statements complete", "catalog afterwards"])
prop("C27", "CREATE TABLE creates exactly the table it describes",
 "Executing a CREATE TABLE statement creates a table with exactly the columns, types, NOT NULL markers and primary key (columns, order and directions) written in it, whether the key is written with a column or separately; unknown key columns and existing tables are refused, and with IF NOT EXISTS an existing table is left as it is. CREATE INDEX is refused for a missing table or an unknown column.",
 ["programs", "histories"], "every CREATE TABLE and CREATE INDEX statement of the supported grammar in every catalog state",
 "There is no compiled test of statement evaluation.",
 ["evaluate/evaluate.go", E_, "parser/parser.go"], [("constraint to key mapping", "evaluate/evaluate.go: EvaluateCreateTable, indexKeyToColumnKey")], None, ["statement results", "definition of the opened table"])
prop("C28", "Concurrent sessions behave as if run one at a time",
 "However many sessions execute statements and transactions concurrently, there is one order of their transactions (statements outside a transaction being their own) that explains every result and the final catalog, and table ids stay unique.",
 ["schedules", "histories"], "every interleaving of concurrent sessions",
 "No test runs two sessions or engine transactions concurrently.",
 [S_, E_, B], [("store lock held by the open transaction", B + ": Begin")], None, ["statement results", "final catalog"])
PP = "parser/parser.go"
prop("C29", "Expressions are parsed with the right precedence and associativity",
 "Every expression of unary and binary operators, parentheses, function calls, and subquery comparisons is parsed into the tree given by operator precedence (OR, AND, NOT, equality, ordering, bit operations, addition, multiplication, negation, concatenation, from loosest to tightest), with operators of equal precedence grouped from the left and parentheses respected. The operands appear in the tree in the order written.",
 ["inputs"], "every expression of any length and nesting",
 "The test has a few dozen expressions with at most a handful of operators.",
 [PP, "parser/sql/expr.go"], [("right-leaning parse followed by rotations", PP + ": parseSubExpr, adjustPrecedence")], None, ["parsed expression"])
prop("C30", "Each statement of a script is parsed independently of the others",
 "Parsing a script gives exactly its valid statements, each as it would be parsed alone and in order; every statement with an error is reported and contributes no statement; no statement is affected by what precedes it, valid, empty or not. Parsing ends with end-of-input exactly when the script is exhausted.",
 ["programs", "fault_sequences"], "every sequence of valid, empty and invalid statements, with the error at any position",
 "Tests parse single statements, and sequences without errors.",
 [PP], [("skip to the end of the statement after an error", PP + ": Parse")], [("failed flag and look back buffer", "tokens pushed back between statements", PP + ": Parser")], ["statements and errors returned"])
prop("C31", "Parsing never crashes or hangs, whatever the input",
 "For every input text, valid or not, parsing returns a statement or an error for each statement and reaches the end of the input in finitely many steps; it never crashes, and every statement it returns can be displayed.",
 ["inputs"], "every text",
 "Tests try a few hundred hand written inputs.",
 [PP, "parser/scanner/scanner.go", "parser/sql/query.go", "parser/sql/datadef.go"], [("errors raised as panics and recovered", PP + ": Parse"), ("token scanning", "parser/scanner/scanner.go: scan")], None, ["result of parsing", "text of the statement"])
prop("C32", "Literals and names denote exactly what is written",
 "String literals (with doubled quotes, backslash escapes where allowed, and continuation over lines), bytes literals (hexadecimal and escaped), integers over the whole 64 bit range, decimals, and quoted and unquoted names scan to exactly the value the notation denotes, independently of the other literals around them. Malformed or out of range ones are reported.",
 ["inputs"], "every literal and every context of neighbouring tokens",
 "Tests scan a few dozen literals, one at a time.",
 ["parser/scanner/scanner.go"], [("literal scanning", "parser/scanner/scanner.go: scanString, scanBytes, scanHexBytes, scanNumber, scanIdentifier, scanQuotedIdentifier")], None, ["values in the parsed statement"])
prop("C33", "A parsed statement contains exactly what was written",
 "Every statement of the supported grammar is parsed into the statement with exactly the written kind, names (with their qualification), columns, values, clauses, aliases, joins and options, in the order written, and nothing else. Leaving out an optional part gives its documented default.",
 ["programs"], "every combination of statement kind, optional parts and repetition counts",
 "Tests cover selected combinations of each statement.",
 [PP, "parser/sql/stmt.go", "parser/sql/query.go", "parser/sql/datadef.go"], [("recursive descent", PP + ": parseStmt")], None, ["parsed statement"])
prop("C34", "Contradictory table and statement definitions are refused",
 "A CREATE TABLE statement with a repeated column, more than one primary key, a key constraint repeating an earlier key, a repeated constraint name, a repeated column in a key, or a repeated DEFAULT or NOT NULL is refused, and one without any of these is accepted; likewise repeated columns in INSERT, COPY and join USING lists, row value lists of different lengths, joins without or with the wrong condition, and repeated foreign key actions.",
 ["programs"], "every combination and order of column and table constraints and lists",
 "Tests try one or two contradictions of each kind.",
 [PP], [("checks while parsing", PP + ": parseColumn, addKeyConstraint, addColumnConstraint, parseKey, parseFromItem, parseInsert, parseValues")], None, ["acceptance", "constraints in the parsed statement"])
prop("C35", "Layout and letter case of keywords do not change meaning",
 "Changing the letter case of keywords and unquoted names, and adding or changing white space, line breaks or comments between tokens, never changes the statements a script is parsed into.",
 ["programs"], "every statement and every way to lay it out",
 "Tests write most statements in one layout.",
 ["parser/scanner/scanner.go", "types/identifier.go"], [("white space and comment skipping", "parser/scanner/scanner.go: scan"), ("case folding", "types/identifier.go: lookupID")], None, ["parsed statement"])
prop("C36", "COPY hands over exactly the text that follows its line",
 "After a COPY statement the returned reader delivers exactly the text after the line the statement ends on, with the right line number, whatever the layout of the statement, and once the data is consumed parsing continues with the statement after it.",
 ["programs", "inputs"], "every layout of the statement, delimiter, data and following statements",
 "Tests read one or two data sets after one layout of the statement.",
 [PP, "parser/scanner/scanner.go"], [("hand over at the end of the line", "parser/scanner/scanner.go: RuneReader, " + PP + ": parseCopy")], None, ["text read from the reader", "line number", "next statement"])
prop("C37", "A statement cut off by a failure of reading is never returned",
 "When reading the text of a script fails at any point, parsing returns exactly the statements whose semicolon was read before, each as it would otherwise be, and then an error: never the beginning of a statement as if it were whole, and never the end of the script. The data of a COPY then ends with an error instead of the end of the data.",
 ["programs", "fault_sequences"], "every script and every place in it at which reading fails",
 "Tests read from strings, which do not fail.",
 ["parser/scanner/scanner.go", PP], [("errors of the reader", "parser/scanner/scanner.go: readRune and its callers, runeReader.ReadRune"), ("what an error token does", PP + ": Parse, scanRune")], None, ["parse results", "error of the reader of COPY data"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
