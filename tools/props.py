import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ST=["storage/basic/basic.go","storage/storage.go"]
p("C01","Concurrent storage transactions are serializable",
 "Whatever any number of concurrent clients do in transactions of one store, everything they read (in transactions which commit and in those which do not) and the final contents are explained by running the transactions one at a time, in an order which agrees with real time. No committed write is lost, no uncommitted write is seen by another transaction, and a transaction sees its own writes.",
 ["schedules","histories"],"every interleaving of any number of clients running any transactions over shared tables",
 "The storage tests run one transaction after another from a single goroutine; no test overlaps two transactions, and no sample of interleavings settles the others.",
 ST,[("store lock held from begin to completion; copy-on-write tree replaced at commit","storage/basic/basic.go: Begin, Commit, Rollback, forWrite")],
 ["results of Rows/Next, Insert, Update, Delete, Commit"],[("committed tree","the committed contents of all tables","storage/basic/basic.go: store.tree")])
p("C02","A rolled back or abandoned transaction leaves no trace",
 "After a transaction is rolled back, at any point and after any operations (inserts, updates, deletes, creating and dropping tables, operations that failed), the store is exactly as if the transaction had never begun. Nothing it did is ever visible to any other transaction.",
 ["crash_points","histories","schedules"],"every history of operations cut off at every point, with other clients running",
 "The tests roll back a handful of fixed scripts; the guarantee is over every prefix of every script and what the next transactions see.",
 ST,[("writes go to a clone of the committed tree","storage/basic/basic.go: forWrite, Insert, Rollback")],["later transactions"])
p("C03","A scan returns exactly the rows asked for, in key order",
 "A scan of a table returns every row whose key lies between the given bounds (both inclusive, either may be absent) and which satisfies the predicate, once each, in the order of the table's key (each column ascending or descending), and nothing else. The columns returned are the ones asked for, a predicate is never satisfied by NULL, and this holds for every history of changes to this and other tables, including the scanning transaction's own.",
 ["histories","inputs","schedules"],"every history of writes by concurrent transactions, every key definition, bounds, projection, and predicate",
 "Tests scan a few small tables with a few bounds; they cannot cover the product of histories, key definitions, and bounds.",
 ST+["storage/basic/btree.go","encode/key.go"],[("key encoding and ordered tree","storage/basic/btree.go: rowToItem, lessItems; storage/basic/basic.go: Rows")],["Rows, Next"])
p("C04","Open cursors and row references are stable while the table changes",
 "A cursor returns the rows its scan selected when it was opened, with the values they had then, whatever its own transaction inserts, updates, or deletes meanwhile by any means; rows already read do not change. Memory is never shared: what a client does with a row it was given, or with values, rows, and bounds it handed over, changes nothing in the store and nothing that anyone else reads. An update or delete through the current row, or through a reference kept for later, changes exactly the row it refers to, only the columns given, and is seen by every later scan of the transaction.",
 ["histories","schedules"],"every interleaving of several open cursors, kept references, and writes in one transaction, among other clients",
 "Tests update while scanning in a few fixed patterns with one cursor.",
 ST,[("a scan collects its rows when it is opened; references are by key","storage/basic/basic.go: Rows, Next, Current, rowRef, copyValue")],["Rows, Next, Current, Update, Delete"])
p("C05","A failed write changes nothing, and keys stay unique",
 "No two rows of a table have equal keys: an insert or update which would make it so fails. An insert of any number of rows, or an update, which fails for whatever reason changes nothing at all, and its transaction can go on, read, write, and commit what it did before and after the failure.",
 ["histories","inputs","fault_sequences"],"every sequence of writes of which any may fail at any row or column",
 "Tests check that single bad writes return an error; they rarely look at what a failed write left behind, and never at the transaction's later life.",
 ST+["types/value.go"],[("rows are inserted into a copy; updates are checked before any change","storage/basic/basic.go: Insert, rowRef.Update")],["error results and later scans"])
p("C06","Stored values always obey their column's type, size, and NOT NULL",
 "Every value written to a column is converted to the column's type or refused: what can be read from a table is of the declared type, within the declared size or integer width, and not NULL in a NOT NULL column for which a value was given. A value which was accepted reads back as the converted value, exactly, in every later transaction.",
 ["inputs","histories"],"every value for every column type, through inserts and updates, in any history",
 "Tests try selected values per type; the guarantee is about every write path in every history.",
 ST+["types/value.go","types/column.go"],[("conversion of rows and values on write","types/value.go: ConvertRow, ConvertValue; storage/basic/basic.go: Insert, Update")],["Rows, Next"])
p("C07","A transaction completes exactly once",
 "A transaction which has been committed or rolled back stays so: any further commit or rollback reports an error, changes nothing, and does not disturb the transactions of other clients. A transaction with rows still open can't be completed; the attempt is refused, and when the rows are closed it completes normally. Rows which have been closed can't be used, nor closed again. After its completion nothing which is done with a transaction, its tables, or its row references has an effect on the store.",
 ["schedules","histories","fault_sequences"],"every order of completion attempts among concurrent clients at both the storage and the catalog level",
 "Tests complete a transaction twice in one goroutine with nobody else around; releasing another client's lock cannot show there.",
 ST+["engine/engine.go"],[("completed flag and open row count","storage/basic/basic.go: Commit, Rollback; engine/engine.go: Commit, Rollback")],["Commit, Rollback"])
p("C08","Every client makes progress; no lock is ever leaked",
 "If every client eventually completes its own transactions, then every operation of every client (beginning a transaction, catalog operations, statements of sessions) finishes in a bounded number of its own steps after the transactions before it have completed. This holds whatever fails on the way: no error path, rolled back transaction, refused completion, or storage fault leaves the store locked.",
 ["schedules","fault_sequences"],"every schedule and every point at which an operation can fail",
 "A leaked lock shows only if another client comes after the failure; the tests are sequential and inject no storage failures.",
 ["storage/basic/basic.go","engine/engine.go","engine/init.go","engine/typedtable.go","evaluate/session.go"],[("store lock, released by completion; rollback on error","storage/basic/basic.go: Begin, Commit, Rollback; engine/engine.go: withTransaction, ListDatabases; evaluate/session.go: Evaluate")],["deadlock or step limit of a run"])
p("C09","Tables are created and dropped as part of transactions, and kept apart",
 "Creating and dropping tables takes effect with the transaction, like any other write: a new table is empty and has exactly the name, columns, types, and key it was given, in every later transaction; a dropped table is gone with all of its rows, and one created again with its id starts empty. Opening a table with another name, other columns, types, or key than its own, creating one whose id is in use, and dropping one which does not exist are refused, and change nothing. No operation on one table affects the rows or the definition of another, whatever their ids.",
 ["histories","schedules","inputs"],"every history of creating, filling, dropping, and creating again, committed or rolled back, over any table ids",
 "Tests create and drop a table or two in fixed order; rows left behind by a drop or a neighbour's rows show only in longer histories.",
 ST+["storage/basic/btree.go"],[("rows are keyed by table id; definitions are rows of a reserved table","storage/basic/btree.go: toRelationId, lessItems; storage/basic/basic.go: CreateTable, DropTable, OpenTable")],["OpenTable, Rows"])
EN=["engine/engine.go","engine/typedtable.go"]
p("C10","The catalog behaves as one sequential catalog under concurrent DDL",
 "Whatever concurrent clients create, drop, list, and open (databases, schemas, tables), in transactions which commit or roll back, the results are those of a sequential catalog: a name can be created only once and only inside an existing parent, what was created and committed is listed and can be opened by every later transaction, and what was dropped or rolled back is not. Listings are complete and contain nothing of another database. All of it is kept in the store: a new engine over the same store (a restart) continues where the last one ended.",
 ["schedules","histories"],"every interleaving of catalog operations of any number of clients",
 "The engine tests are single threaded scripts over two or three names.",
 EN+["engine/init.go","evaluate/evaluate.go"],[("catalog tables read and written in the same storage transaction","engine/engine.go: CreateDatabase .. CreateTable")],["ListDatabases, ListSchemas, OpenTable, errors"],
 [("databases, schemas, tables","catalog rows","engine/engine.go: databasesRow, schemasRow, tablesRow")])
p("C11","Table ids are unique, increasing, and never reused",
 "Every table which is created gets an id of its own, at least 512, larger than the id of every table whose creation was committed before it, and keeps it for life. No two tables, of whatever databases and created by whichever concurrent clients, none dropped earlier with its database or schema, and none created through an earlier engine over the same store, ever share an id.",
 ["schedules","histories","crash_points"],"every interleaving of creations, failures, and rollbacks",
 "The table id test creates a few tables in one goroutine and never rolls back or fails in between.",
 EN,[("sequence row updated in the creating transaction","engine/engine.go: nextTableId, CreateTable")],["Table.TableId"],[("next table id","persistent sequence","engine/engine.go: sequencesRow")])
p("C12","A table's definition is what it was created with, forever",
 "Opening a table, in any later transaction, through the same or a new engine over the store, and whatever has been created since, gives exactly the column names, column types (size, width, fixed, NOT NULL), and key (columns and direction) it was created with. A definition which can't be kept is refused when it is created; a table which was created can always be opened.",
 ["inputs","histories","schedules"],"every definition (any identifiers, keywords included; any number of columns; any types) in every history",
 "Tests create a few definitions of a few ordinary columns and compare them in the same process at once.",
 EN+["types/identifier.go","engine/typedinfo.go","evaluate/evaluate.go","parser/parser.go"],[("definition encoded into the catalog row","engine/engine.go: TableType.Encode, DecodeTableType; types/identifier.go: GobEncode, GobDecode")],["OpenTable, Table.Type"])
p("C13","A catalog operation that fails has no effect; one that succeeds is whole",
 "If the storage fails at any point of a catalog operation, the operation reports an error unless it was complete: it is never reported as done when it was not, and one which reported an error and whose transaction did not commit has left nothing behind. In every case it closes what it opened and completes the storage transaction it began exactly once.",
 ["fault_sequences","crash_points"],"every storage call of every catalog operation, failing before or after its effect",
 "No test injects a storage failure; only the success paths are run.",
 EN+["evaluate/session.go"],[("errors are passed on; rollback on error","engine/engine.go: withTransaction, ListDatabases; engine/typedtable.go: typedTableSelect")],["errors, later listings, completion of storage transactions"])
p("C14","Initialising a store is all or nothing and can be retried",
 "If initialising a new store fails at any point, the store is left as it was, unlocked, and initialising it again succeeds. After it succeeded the system catalog is complete: the system and maho databases with their schemas, every system table listed with the definition it really has, and ids of user tables starting at 512.",
 ["crash_points","fault_sequences"],"every storage call of the initialisation, failing before or after its effect, any number of times",
 "The test initialises once, successfully.",
 ["engine/init.go","engine/engine.go"],[("one transaction for all of it, rolled back on error","engine/init.go: Init, initStore")],["catalog after Init"])
p("C15","Typed tables return exactly what was stored and pass every failure on",
 "A struct stored in a typed table reads back equal (nullable fields included) by lookup, range select, update, and delete, which visit exactly the rows of the range, in key order, and stop where the caller's function says so. Every error of the storage while reading or writing, and of the caller's function, is returned to the caller, and whatever happens the rows opened are closed. The caller's function may itself use the table; the row it was given stays the same. What was read, or used as a key, stays as it was when the next row is read, also into the same struct.",
 ["inputs","histories","fault_sequences","schedules"],"every struct type and value, every history of typed operations, and every failing storage call or callback",
 "Tests use two or three struct types, and callbacks which do not fail.",
 ["engine/typedtable.go","engine/typedinfo.go"],[("conversion between structs and rows; deferred close","engine/typedtable.go: structToRow, RowToStruct, typedTableSelect")],["TypedTableInsert/Lookup/Select/Update/Delete"])
EV=["evaluate/session.go","evaluate/evaluate.go"]
p("C16","A session's transactions follow BEGIN, COMMIT, and ROLLBACK",
 "Statements between BEGIN and COMMIT take effect together and are isolated from all other sessions until then; ROLLBACK undoes all of them; outside of a transaction each statement takes effect on its own or not at all. BEGIN inside a transaction, COMMIT or ROLLBACK outside of one, and creating or dropping a database inside one are errors which change neither the transaction nor the catalog.",
 ["schedules","histories"],"every sequence of statements, valid or not, of any number of concurrent sessions",
 "The session tests run one session through a short script.",
 EV+["engine/engine.go"],[("the session's active transaction","evaluate/session.go: Evaluate")],["errors of Evaluate, catalog seen by all sessions"],[("session transaction","active transaction or none","evaluate/session.go: Session.tx")])
p("C17","Unqualified names use the session's own current database and schema",
 "A name without a database or schema means the one of the session which evaluates the statement, as set by its latest SET or USE, and a qualified name means what it says; the statement acts on exactly that object. Nothing one session sets, resolves, or fails to do changes how another session's names are resolved.",
 ["schedules","histories"],"every interleaving of SET/USE and statements of concurrent sessions with different defaults",
 "Tests resolve names in one session at a time.",
 EV+["parser/sql/datadef.go","types/name.go"],[("resolution against the session","evaluate/session.go: ResolveTable, ResolveSchema, set")],["objects created, dropped, and opened"])
p("C18","A failing statement is contained",
 "When a statement fails, by its own error or because the storage fails at any point, the session reports the error and stays usable: outside of a transaction the statement has had no effect, inside one the transaction is still active and can be committed or rolled back, and after a failed COMMIT or ROLLBACK the session is out of the transaction. No other session is affected, other than by what was committed.",
 ["fault_sequences","schedules"],"every statement of every session failing at every storage call, before or after its effect",
 "No test makes the storage fail under a session, and error paths are tested with one session.",
 EV+["engine/engine.go"],[("rollback on error; session transaction cleared at completion","evaluate/session.go: Evaluate")],["errors, later statements of all sessions"])
PA=["parser/parser.go","parser/scanner/scanner.go"]
p("C19","Parsing does not depend on how the input arrives",
 "The statements and errors a parser returns are a function of the characters of its input alone: they are the same however the reader delivers them (one at a time, in any pieces, with pauses, with the end of the input reported together with the last data or after it) and whatever was parsed before.",
 ["schedules","inputs"],"every way of cutting every input into reads",
 "All of the parser tests read from a string in memory, one statement at a time.",
 PA,[("one rune of look-ahead and pushed back tokens","parser/scanner/scanner.go: runeReader; parser/parser.go: scan, unscan")],["Parse"])
p("C20","A statement is returned as soon as its semicolon has been read",
 "When a statement's terminating semicolon has arrived the parser returns the statement (or its error) without waiting for any more input. An interactive client which sends a statement only after it has seen the result of the one before it never waits forever.",
 ["schedules","inputs"],"every statement, every arrival order of its characters, every interleaving of client and parser",
 "Tests have all of the input available at once, so a parser that reads ahead passes them.",
 PA,[("no look-ahead past the end of a statement","parser/parser.go: Parse; parser/scanner/scanner.go: Scan")],["progress of an interactive client"])
p("C21","After an error the next statement is parsed as if nothing had happened",
 "A statement with an error, of any kind and at any place in it, yields exactly one error and nothing else: the statements before it and after its terminating semicolon are parsed exactly as they are without it. Semicolons inside of strings, quoted identifiers, and comments do not end a statement.",
 ["inputs","histories"],"every sequence of valid and damaged statements, damaged at any token",
 "Tests check that single bad statements fail; few go on to parse what follows.",
 PA,[("skip to the semicolon after an error","parser/parser.go: Parse, fail state")],["Parse"])
p("C22","A read error is reported, and never turns into a wrong statement",
 "If reading the input fails, in the middle of a statement or between statements, the parser reports that error, and no statement is made up from text with a gap where the failure was. Statements complete before the failure are returned, and after a failure between statements, or in the middle of one, parsing goes on with later text, of which at most the statement next to the failure may be skipped. The end of the input is reported as the end only between statements, again and again; in the middle of a statement it is an error.",
 ["fault_sequences","inputs","crash_points"],"a transient or lasting read error, or the end of the input, at every position of every input",
 "The tests' readers never fail.",
 PA,[("reader errors are kept by the scanner","parser/scanner/scanner.go: runeReader, ScanEOF, Scan")],["Parse"])
p("C23","Damaged input never crashes or hangs the parser",
 "For every sequence of bytes or characters, valid, truncated, or damaged in any way, each call of the parser returns a statement, an error, or the end of the input, after a number of steps bounded by the length of what it read. Once the end is reached it reports the end for good.",
 ["inputs","fault_sequences"],"every byte stream: bit flips, cuts, duplications, invalid encodings, unterminated tokens, extreme nesting within bounds",
 "Tests feed well formed text and a few hand picked errors.",
 PA,[("errors are raised and recovered in one place","parser/parser.go: Parse")],["Parse"])
p("C24","Parsed statements are immutable and parsers are independent",
 "A statement, once returned, does not change, whatever its parser or any other parser reads afterwards. Any number of parsers working at the same time on different inputs each return exactly what they return when working alone.",
 ["schedules","histories"],"every interleaving of parsers, and every sequence of statements after the one which is kept",
 "Tests look at a statement at once, with one parser at a time; a shared buffer shows only later.",
 PA+["types/identifier.go"],[("values are copied out of the scanner's buffer","parser/scanner/scanner.go: scanString, scanBytes")],["statements kept by the client"])
p("C25","COPY hands over exactly its data, and the parser goes on after it",
 "The reader which a COPY ... FROM STDIN statement carries delivers exactly the characters after the rest of the statement's line; whatever amount its consumer takes, the parser continues with the first character the consumer did not take. An error while reading, also one in the rest of the line, is delivered to the consumer, and the data after it is neither lost nor repeated.",
 ["inputs","schedules","fault_sequences"],"every data, every consumer stopping anywhere, every chunking and read error",
 "One test reads the data of one statement completely.",
 PA+["parser/sql/datadef.go"],[("the scanner's reader is shared with the consumer","parser/scanner/scanner.go: RuneReader; parser/parser.go: parseCopy")],["the COPY statement's reader, next Parse"])
p("C26","Identifiers are interned consistently by concurrent clients",
 "The same name always gives the same identifier and different names give different ones, whichever concurrent clients ask and in whatever order, for as long as the process lives; an identifier's text is the name it was made from. Unquoted names are case insensitive and may be keywords; quoted names are taken as they are. (Names longer than 128 bytes count as their first 128 bytes.)",
 ["schedules","histories"],"every interleaving of lookups and creations of new and known names",
 "The identifier tests run in one goroutine; a lost or doubled creation needs an interleaving.",
 ["types/identifier.go"],[("table of identifiers under a lock, checked again before creating","types/identifier.go: ID, lookupID, String")],["ID, String, IsReserved"],[("identifier table","name to identifier and back","types/identifier.go: identifiers, names, lastIdentifier")])
p("C27","What one process encodes, another decodes to the same meaning",
 "Identifiers and table definitions which a process encodes (to store them) mean the same when they are decoded by a process with any other history of identifiers: the same names, quoted or keyword, types, and keys. Decoding what was damaged gives an error or some definition, and does not crash.",
 ["histories","inputs","crash_points"],"every pair of processes with different histories, every definition, restarts at any point",
 "Tests encode and decode within one process, where the numbers of identifiers agree.",
 ["types/identifier.go","engine/engine.go"],[("identifiers are encoded by name","types/identifier.go: GobEncode, GobDecode; engine/engine.go: Encode, DecodeTableType")],["decoded values"])
p("C28","Concurrent use is free of data races",
 "Clients which use one store, one catalog, sessions of their own on one catalog, parsers of their own, identifiers, or stores and catalogs of their own, all at the same time, never access the same memory without synchronization, in any interleaving.",
 ["schedules"],"every interleaving of concurrent clients of the shared parts",
 "No test starts a second goroutine, so running them with a race detector shows nothing.",
 ["storage/basic/basic.go","types/identifier.go","evaluate/session.go","engine/engine.go","parser/scanner/scanner.go"],[("store lock, identifier lock, atomic session ids","storage/basic/basic.go: mutex; types/identifier.go: mutex; evaluate/session.go: sessionId")],["happens-before analysis of simulated runs"])
p("C29","The console answers every statement and ends when its input does",
 "The console prints, for each statement of its input and in order, one prompt followed by the statement or its error, as soon as the statement is complete, and goes on after errors. It ends, without an endless loop, when its input ends or can't be read any more.",
 ["inputs","schedules","fault_sequences"],"every input, delivered in any pieces, ending or failing anywhere",
 "There is no test of the console.",
 ["main.go","parser/parser.go"],[("loop over Parse until the input ends","main.go: main")],["standard output for a given standard input"])
p("C30","Expressions are parsed with the documented precedence",
 "An expression without parentheses means the same as the one with parentheses put in according to the precedence and associativity of its operators, and parentheses are honoured.",
 ["inputs"],"every expression",
 "Tests parse selected expressions.",
 ["parser/parser.go","parser/sql/expr.go"],[("precedence climbing","parser/parser.go: parseSubExpr, adjustPrecedence")],["Parse, String"])
p("C31","Conversion of values is exact or an error",
 "Converting a value to a type gives the value with that meaning, or an error; it never gives a value of another type.",
 ["inputs"],"every value and type",
 "Tests convert selected values.",
 ["types/value.go"],[("CastValue, ConvertValue","types/value.go")],["CastValue, ConvertValue"])
p("C32","The order of encoded keys is the order of the values",
 "The encoded key of a row compares with that of another row, as bytes, as the rows' key columns compare, column by column, ascending or descending, and equal keys encode equally.",
 ["inputs"],"every pair of rows and every key definition",
 "Tests compare lists of selected keys.",
 ["encode/key.go"],[("tagged, order preserving encoding","encode/key.go: MakeKey")],["MakeKey"])
p("C33","What clients do not share does not depend on each other",
 "A client with a store, catalog, typed tables, session, or parser of its own gets the results it would get if it were alone in the process, whatever other clients do at the same time or did before with theirs, even if they use the same names, table numbers, and statements.",
 ["schedules","histories"],"every interleaving of clients which share nothing but the process",
 "Tests use one store, session, or parser at a time, one after the other.",
 ["storage/basic/basic.go","encode/key.go","engine/engine.go","engine/typedtable.go","evaluate/session.go","parser/parser.go","parser/scanner/scanner.go"],[("state is kept in the store, transaction, session, and scanner, and not in the packages","storage/basic/basic.go: store, transaction; evaluate/session.go: Session; parser/scanner/scanner.go: Scanner")],["results of every operation"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
for d in P:
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n)
