prop("G01", "Applying a generated SQLite migration reaches the declared schema",
     "For any SQLite database and any declared schema (table structs, another database, or a dumped schema), the migration written by generate with -drop-objects applies without error and leaves exactly the declared tables, columns (type, NOT NULL, default), primary keys, unique constraints, foreign keys and indexes, keeping triggers and views; a second generate against the migrated database then produces nothing. Foreign key targets and actions, index uniqueness, AUTOINCREMENT and collation of an object that already exists are not tracked by generate and are assumed unchanged.",
     ["inputs", "histories"], "for all pairs (and sequences) of schemas, identifiers needing quotes, defaults, equivalent spellings in the structs, and sources given as database, schema.json or struct file",
     "golden files pin the text generated for a few schema pairs; nobody executes it, and convergence is a statement about every pair",
     ["ddl/sqlite_migration.go", "ddl/struct_parser.go", "ddl/database_introspector.go", "ddl/generate_cmd.go"],
     [("schema diff", "ddl/sqlite_migration.go:newSQLiteMigration"), ("table copy", "ddl/sqlite_migration.go:copyTable"), ("statement writer", "ddl/dump_cmd.go:writeCreateTable"), ("struct parsing", "ddl/struct_parser.go"), ("introspection", "ddl/database_introspector.go")],
     None, ["sqlite_schema and pragmas of the migrated database", "files written by generate"],
     technique="runtime oracle over random schema histories: real generate and migrate run against real SQLite databases, and the resulting structure, read independently through pragmas, is compared with the declared model after every step")

prop("G02", "Generated SQLite migrations never lose what they were not told to drop",
     "Without -drop-objects a generated migration removes or alters nothing that exists: every table, column, constraint, index, trigger, view and row stays, and only new tables, columns and indexes appear. With -drop-objects, every row and every value of a surviving column of a surviving table is preserved, triggers and views included, and new columns of old rows hold their declared default. (Copying a table that other tables reference while foreign keys are enforced is a recorded defect.)",
     ["inputs", "histories"], "for all schema histories over populated databases, with and without foreign key enforcement",
     "data preservation needs generated SQL to be executed on populated databases for arbitrary schema pairs",
     ["ddl/sqlite_migration.go", "ddl/generate_cmd.go"],
     [("drop filtering", "ddl/sqlite_migration.go:newSQLiteMigration"), ("table copy", "ddl/sqlite_migration.go:copyTable")],
     None, ["rows before and after the migration", "sqlite_schema before and after"],
     technique="conservation monitor: every cell holds a unique value, all rows are recorded before and compared after each generated migration is really applied")

prop("G05", "automigrate does what generate plus migrate would do, without history",
     "automigrate brings the SQLite database to the declared schema exactly as applying the generated migration would, with the same guarantees on rows and undeclared objects with and without -drop-objects, never creates or changes the history table, does nothing when there is nothing to do, and with -dry-run only prints the SQL and leaves the database untouched. The flags and the Go API behave alike.",
     ["inputs", "histories", "configurations"], "for all schema histories mixing automigrate and ordinary migrations, through the flags or the API",
     "equivalence of two paths over arbitrary schemas cannot be sampled by fixed examples",
     ["ddl/automigrate_cmd.go", "ddl/sqlite_migration.go", "ddl/migrate_cmd.go"],
     [("plan and run", "ddl/automigrate_cmd.go:Run"), ("skip of the history table", "ddl/migrate_cmd.go:Run")],
     None, ["database structure and rows", "history table contents", "database file bytes around a dry run"],
     technique="runtime oracle over random schema histories driven through automigrate, with the structure, rows, history table and file bytes compared around every call")

prop("D01", "A dump loaded into an empty SQLite database reproduces the original",
     "For any SQLite database, dump followed by load of the directory, zip or tgz into an empty database gives the same tables, columns, constraints, indexes and rows: every row once, every value unchanged in content and storage class (NULLs, empty strings, binary data, unicode, quotes, newlines, numbers at their limits, booleans, dates and timestamps with fractions), with any null string and binary prefix given alike to both commands, provided no text equals the null string or starts with the binary prefix. -schema-only and -data-only dump just that part, -tables and -exclude-tables just those tables, and dumping never changes the source. Views, triggers and the rows of virtual tables are not dumped. (Table names with a dot, a slash or leading digits and an underscore, and CRLF inside text, are recorded defects.)",
     ["inputs", "configurations"], "for all schemas, row contents, names, archive formats and flag combinations",
     "the round trip is a claim about every value of every type; the tests dump one sample database",
     ["ddl/dump_cmd.go", "ddl/load_cmd.go", "ddl/database_introspector.go"],
     [("row writer", "ddl/dump_cmd.go:dumpCSV"), ("schema writer", "ddl/dump_cmd.go:dumpSchema"), ("row reader", "ddl/load_cmd.go:loadCSV"), ("file name to table", "ddl/load_cmd.go")],
     None, ["rows with typeof() of source and target", "sqlite_schema and pragmas of both", "source file bytes"],
     technique="runtime round-trip oracle: real dump and load between real SQLite databases filled with hostile values, all rows compared by value and storage class and the schemas compared through pragmas")

prop("D03", "load applies every file once, in order, as a row-by-row upsert",
     "Loading CSV and SQL files into SQLite by name, directory, zip or tar archive gives the result of applying each record in order as a single upsert on the primary key: whatever the batch size, a record with an existing key updates that row, duplicates in one file leave the last one, tables without a key get every record, and values are NULL, binary or text exactly as the null string, binary prefix and column types say (and Unix seconds for dates and timestamps with -timestamp-as-integer). From a directory or archive schema.sql runs first, then the CSV files, then indexes.sql, then constraints.sql, and nothing else is run. A file that fails leaves none of its own records behind and load returns the error; foreign key enforcement is off while loading and back to its previous setting afterwards, on success, failure or cancellation.",
     ["inputs", "configurations", "faults"], "for all CSV contents, column subsets and orders, batch sizes, archive layouts, failing records and cancellation points",
     "batch boundaries, partial failure and archive layout combine beyond any fixed sample",
     ["ddl/load_cmd.go", "ddl/batch_insert.go"],
     [("CSV reader", "ddl/load_cmd.go:loadCSV"), ("archive walk", "ddl/load_cmd.go:loadZip"), ("upsert", "ddl/batch_insert.go:ExecContext")],
     None, ["rows of the loaded database against a reference database filled record by record", "PRAGMA foreign_keys of every pooled connection", "order of executed files"],
     technique="runtime differential oracle: real load against a reference database filled by single-row upserts, with injected failures and cancellations and the session settings inspected afterwards")

prop("D02", "Subset dumps are referentially intact, complete and minimal",
     "For any SQLite database whose foreign keys form no cycle, dump -subset writes exactly the rows its query selects plus every row these depend on, directly or indirectly over any foreign key path, each unchanged and once, so that the dump has no dangling reference; -extended-subset writes the selected rows, the rows directly linked to them, and, when there is one foreign key path between any two tables, exactly the rows that depend on the selected ones and all rows these need. Several queries give the union. Any primary key type and name works, tables without a primary key or excluded by the filters are left out, a query without rows dumps no rows, and a malformed query is an error. (Cycles, self references and multiple paths under -extended-subset are recorded defects.)",
     ["inputs"], "for all foreign key graphs, row contents, key types and subset queries",
     "closure under references is a claim about every graph and every row set; the tests pin one sample database",
     ["ddl/subsetter.go", "ddl/dump_cmd.go"],
     [("path search", "ddl/subsetter.go:subset"), ("row query", "ddl/subsetter.go:Query"), ("joins", "ddl/subsetter.go:toSQL")],
     None, ["rows of the loaded subset against the closure of a row graph kept by the harness", "PRAGMA foreign_key_check of the loaded subset"],
     technique="runtime oracle: closures computed on a harness-side row graph compared with the rows the real dump produces, plus SQLite's own foreign key checker on the loaded result")

prop("D04", "Batched inserts deliver every record once on every dialect",
     "For SQLite, Postgres, MySQL and SQL Server, BatchInsert and the CSV loading built on it deliver every record exactly once whatever the batch size (zero and negative mean the default), number of columns and number of records, never exceeding the server's parameter limit: as an upsert on the key columns when all of them are given and a plain insert otherwise, returning the number of rows affected. Identity columns keep their values, Postgres sequences end at the highest value, and IDENTITY_INSERT, time zone and foreign key checks are back to their previous values on every connection afterwards. A failing iterator, statement, record or cancellation is returned as an error, what was inserted outside a transaction is a prefix of the records, and a CSV file is loaded entirely or not at all, also when a directory or archive is loaded in parallel. (Two records with one key in a batch fail on Postgres and SQL Server: recorded defects.)",
     ["inputs", "configurations", "faults", "schedules"], "for all dialects, tables, batch sizes, record counts, handles (DB, Conn, Tx), failures and cancellation points",
     "batch boundaries, parameter limits and failure points combine beyond any fixed sample, and only SQLite is tested",
     ["ddl/batch_insert.go", "ddl/load_cmd.go"],
     [("batching", "ddl/batch_insert.go:ExecContext"), ("column information", "ddl/load_cmd.go:getColumnInfo"), ("parallel load", "ddl/load_cmd.go:loadDir"), ("session values", "ddl/load_cmd.go:setSessionValue")],
     None, ["statements and arguments crossing the driver", "stored rows against a reference model after each record", "session variables of every connection", "live transactions, statements and result sets"],
     technique="runtime monitor at the driver boundary: the real code runs against SQLite and emulated servers that enforce identity rules and parameter limits, with injected failures, and the stored rows are compared with a record-by-record model")

prop("S03", "Introspection reports exactly what is in the database, and filters it",
     "DatabaseIntrospector reports every user object of a SQLite, Postgres, MySQL or SQL Server database once and truthfully, and nothing else: tables, columns in order (type, length, nullability, default, identity, generation, collation), primary key, unique, foreign key, check and exclusion constraints with their columns in order and their rules, indexes with columns, order, uniqueness, included columns and predicate, views and materialized views, triggers of tables and views, routines, enums, domains, extensions and comments; system objects only when asked for. Filters by schema, name, object type and constraint type select exactly what they name. Hostile names (quotes, spaces, keywords, unicode, other objects' names, prefixes of system names) change nothing, and no database makes it panic.",
     ["inputs", "configurations"], "for all databases of the four dialects, server versions and filters",
     "faithfulness is a claim about every schema, name and filter combination; the tests introspect one sample database and need a live server for three of four dialects",
     ["ddl/database_introspector.go", "ddl/introspection_scripts", "ddl/catalog_cache.go"],
     [("scanning", "ddl/database_introspector.go:WriteCatalog"), ("queries", "ddl/introspection_scripts"), ("merging", "ddl/catalog_cache.go")],
     None, ["reported catalog against the real SQLite database read through pragmas", "reported catalog against the model that filled an emulated server's system tables"],
     technique="runtime oracle: the real introspection queries are executed against real SQLite databases and against emulated system catalogs filled from random models, and everything reported is compared object by object with the source")

prop("D05", "wipe removes every user object or fails without removing any",
     "After a successful wipe no view, materialized view, table, routine (overloaded, aggregate or window function too), enum, domain or extension but plpgsql is left in any schema of the SQLite, Postgres, MySQL or SQL Server database, whatever the names, references between tables (cycles, self references, other schemas, rows that violate them) and settings, and no system object is touched. Everything can be created again afterwards. A failure at any point is returned, and except on MySQL, whose DDL cannot be undone, leaves the database as it was; session settings are restored. -dry-run changes nothing and prints just the statements that wipe then runs; wiping an empty database succeeds. (SQLite views of missing tables are a recorded defect.)",
     ["inputs", "configurations", "faults"], "for all databases of the four dialects and failure points",
     "completeness depends on every combination of objects, references and names; the tests wipe one sample database",
     ["ddl/wipe_cmd.go", "ddl/database_introspector.go"],
     [("statements", "ddl/wipe_cmd.go:Run"), ("object lists", "ddl/database_introspector.go")],
     None, ["sqlite_schema and rows of real databases before and after", "model database of emulated servers before and after", "statements run against statements printed by the dry run", "open transactions, statements and result sets"],
     technique="runtime oracle with fault injection: real wipes of random SQLite databases and of emulated servers that enforce dependency rules, with the whole state compared around dry runs, injected driver failures and the real run")

prop("D06", "Dumped scripts of Postgres, MySQL and SQL Server rebuild the database",
     "Whatever the database, names and schemas, the scripts that dump writes for Postgres, MySQL and SQL Server (in a directory, zip or tgz archive), run on an empty server in the order schema.sql, indexes.sql, constraints.sql, are accepted statement by statement and lead to the dumped schemas, extensions, enums with their labels in order, domains (base type, NOT NULL, default, checks), tables, columns (type, enum or domain, NOT NULL, default, identity or AUTO_INCREMENT, generated expression, collation), indexes, primary keys, unique and check constraints and foreign keys (columns, target schema, rules, deferrability), and to nothing else. Foreign keys come after all keys they may refer to, cycles and other schemas included.",
     ["inputs", "configurations"], "for all databases of the three dialects, server versions and output forms",
     "whether a script is complete and in a workable order depends on the combination of objects; the tests compare one sample database and need a server",
     ["ddl/dump_cmd.go", "ddl/database_introspector.go", "ddl/introspection_scripts"],
     [("tables and types", "ddl/dump_cmd.go:dumpSchema"), ("keys", "ddl/dump_cmd.go:dumpConstraints"), ("indexes", "ddl/dump_cmd.go:dumpIndexes"), ("source", "ddl/database_introspector.go:WriteCatalog")],
     None, ["statements of the scripts against the rules of the server", "facts of the rebuilt database against the dumped one"],
     technique="runtime oracle: the real dump reads emulated system catalogs of random databases, a strict interpreter of the dialect's DDL runs the scripts, and the facts of both databases are compared")

prop("D07", "Rows of Postgres, MySQL and SQL Server survive a dump and a load",
     "For Postgres, MySQL and SQL Server tables of any column types, names and schemas, every row is dumped exactly once and every field of the CSV file denotes the value the server holds: all digits of numbers, unsigned ones too, texts byte for byte, empty text and empty bytes apart from NULL, binary values and bits, identifiers, dates, times of day and timestamps to the microsecond in any time zone, JSON, and arrays with their NULL elements, with and without -array-as-json and -uuid-as-bytes, whichever driver (lib/pq, pgx, go-sql-driver/mysql, go-mssqldb) is used. Loading the file into an empty table sends values that the server reads as the same values.",
     ["inputs", "configurations"], "for all values of all column types of the three dialects and drivers",
     "fidelity is a claim about every value; the tests dump one sample database and need a server",
     ["ddl/dump_cmd.go", "ddl/load_cmd.go", "internal/pqarray/pqarray.go"],
     [("values to text", "ddl/dump_cmd.go:dumpCSV"), ("text to values", "ddl/load_cmd.go:loadCSV"), ("arrays", "internal/pqarray/pqarray.go:Scan")],
     None, ["fields of the CSV files against the stored values", "values the load sends, read as the server reads them"],
     technique="runtime round-trip oracle: an emulated driver hands random rows to the real dump as the Go types of the real drivers, and both the dumped fields and the values that the real load sends are read back and compared")

prop("G06", "Objects marked as ignored count as absent",
     "A schema, table, column, constraint, index, view, routine or trigger of the source or destination catalog that is marked Ignore (as structs and modifiers for other dialects are) is treated like it does not exist: for all four dialects, with and without -drop-objects, generate writes the same files with the same names, and gives the same warnings, as if the catalogs lacked the object, and the table and view structs written for a catalog lack it too. Nothing is created, altered, copied or dropped on behalf of an ignored object. (Ignored tables of a SQLite destination whose source has no tables are a recorded defect.)",
     ["inputs"], "for all pairs of catalogs and all sets of ignored objects that nothing else refers to",
     "every loop over a catalog has to honour the mark; the tests ignore one table, one column and one index per dialect",
     ["ddl/sqlite_migration.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/catalog_cache.go", "ddl/dump_cmd.go", "ddl/table_structs.go", "ddl/view_structs.go"],
     [("SQLite", "ddl/sqlite_migration.go:newSQLiteMigration"), ("Postgres", "ddl/postgres_migration.go:newPostgresMigration"), ("MySQL", "ddl/mysql_migration.go:newMySQLMigration"), ("SQL Server", "ddl/sqlserver_migration.go:newSQLServerMigration"), ("lookups", "ddl/catalog_cache.go:GetTable"), ("structs", "ddl/table_structs.go:ReadCatalog")],
     None, ["names and contents of the files and warnings, with marked objects and without these objects", "text of the structs, with marked objects and without"],
     technique="runtime metamorphic oracle: the real commands run on random pairs of catalogs with random objects marked, and on the same catalogs without these objects, and everything written is compared")

prop("G07", "automigrate migrates Postgres, MySQL and SQL Server as generate plans it",
     "For Postgres, MySQL and SQL Server, automigrate reads the live database and brings it to the declared schema (structs or a catalog) by running exactly what generate writes for that database, in order, in transactions where the files call for one and with the lock timeout set, and running it again does nothing. With warnings and without -accept-warnings it fails and runs nothing; a dry run prints the plan and its warnings and runs nothing. The history table, whatever its name, is never changed or dropped, with -drop-objects or without. A statement that times out on a lock is retried where its file can be repeated; any other failure is returned, keeps its cause, costs no schema, table or column that existed and is to remain, and leaves no half-built index behind. Session settings are restored, and no transaction, result set or connection stays open, whatever the outcome. (A MySQL undo file that drops a schema which existed without tables is a recorded defect.)",
     ["inputs", "faults", "histories"], "for all histories of declared schemas, all flags, and a failure or lock timeout of any script",
     "introspection, generation and migration meet on a server the tests do not have, and the failure paths need a statement to fail in between",
     ["ddl/automigrate_cmd.go", "ddl/database_introspector.go", "ddl/migrate_cmd.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go"],
     [("automigrate", "ddl/automigrate_cmd.go:Run"), ("retry and undo", "ddl/migrate_cmd.go:runWithRetry"), ("session", "ddl/load_cmd.go:setSessionValue")],
     None, ["statements the server is given, by connection and transaction", "schema of the model server after every run", "printed plan against the files generate writes", "session values, transactions, result sets and connections left"],
     technique="runtime monitoring against a model server: the real automigrate introspects emulated system catalogs and its statements run on a strict interpreter of the dialect behind them, with failures and lock timeouts injected")

prop("D08", "Subset dumps of Postgres, MySQL and SQL Server are complete and intact",
     "For Postgres, MySQL and SQL Server, a dump with subset queries holds every row that the queries select and every row these reference, directly or through others, across schemas and whatever the types of the keys (numbers of any size, texts with quotes, backslashes or any characters, binary values, identifiers, dates, timestamps with fractions, booleans, composite keys), an extended one the rows that reference them too, no row twice and none that does not belong; no reference dangles. The server accepts every statement: each literal has a form and type it compares with the key. Tables without a primary key are left out.",
     ["inputs", "configurations"], "for all foreign key graphs, rows, key types and subset queries of the three dialects",
     "closure over references is a claim about every graph and key; the tests dump one sample database and need a server",
     ["ddl/subsetter.go", "ddl/dump_cmd.go"],
     [("selected keys", "ddl/subsetter.go:subset"), ("joins", "ddl/subsetter.go:Query"), ("join text", "ddl/subsetter.go:toSQL")],
     None, ["dumped rows against the closures of the selected rows in a model", "literals of the statements against the types they are compared to"],
     technique="runtime oracle: the real dump runs against emulated servers whose rows lie in SQLite, statements are checked and rewritten literal by literal, and the dumped rows are compared with closures computed on a model")

prop("S01", "Generated table and view structs are Go code that describes the database",
     "For any SQLite, Postgres, MySQL or SQL Server database, sqddl tables writes valid Go code (distinct struct and field names, whatever the table, column, schema and directory names), honours -pkg, -file, -schema-qualified-structs and the table filters, and reading the code back gives the same tables: every column with its name, order-independent attributes (type or domain, NOT NULL, default, identity, autoincrement, ON UPDATE CURRENT_TIMESTAMP, collation, generated) and a field of the fitting type, primary keys, unique constraints, foreign keys (columns, schema, rules, deferrability) and plain indexes; partial, descending, covering and expression indexes are left out rather than misrepresented. sqddl views writes one struct per view with one field per column, in order. (View columns whose names have a space are a recorded defect.)",
     ["inputs", "configurations"], "for all databases of the four dialects, names and flags",
     "faithfulness of generated code is a claim about every schema and name; the tests generate code for one sample database",
     ["ddl/table_structs.go", "ddl/view_structs.go", "ddl/tables_cmd.go", "ddl/views_cmd.go"],
     [("rendering", "ddl/table_structs.go:ReadCatalog"), ("source text", "ddl/table_structs.go:MarshalText"), ("views", "ddl/view_structs.go:ReadCatalog"), ("commands", "ddl/tables_cmd.go:Run")],
     None, ["generated Go files parsed with go/parser", "catalog read back from them against the introspected catalog", "SQLite's own index pragmas"],
     technique="runtime round-trip oracle: real commands run against real SQLite databases and emulated servers, their output is parsed as Go and read back by the real struct parser, and both catalogs are compared object by object")

prop("S02", "Struct declarations mean what is documented on every dialect, or are errors",
     "Table structs and their ddl modifiers are read, for each of the four dialects, as documented: default types per field, dialect prefixes and the dialect modifier, modifiers applied left to right, type, len, identity, autoincrement, notnull, defaults (bracketed where the dialect needs it), collate, generated, primary keys, unique constraints, foreign keys with their rules, deferrability and index, and indexes, at column or table level, with brace quoting and any spacing, over any number of files; other Go code is ignored. A modifier for another dialect has no effect. Malformed declarations (unknown modifiers or values, missing tables or columns, unclosed braces, names generated twice) are reported as errors with their place, nothing is silently dropped, and no text panics. The text form of a modifier list parses back to the same list.",
     ["inputs"], "for all declarations, modifier texts and dialects",
     "the modifier language composes without bound; the tests read a few fixed structs",
     ["ddl/struct_parser.go", "ddl/modifier.go"],
     [("declarations", "ddl/struct_parser.go:WriteCatalog"), ("modifiers", "ddl/modifier.go:NewModifiers"), ("modifier text", "ddl/modifier.go:writeBuf")],
     None, ["parsed catalog against the documented meaning of generated declarations", "errors and panics of the parser"],
     technique="runtime oracle: declarations are generated together with their documented meaning, the real parser reads them for all four dialects, and the catalogs are compared object by object; malformed and arbitrary texts are monitored for errors and panics")

prop("G03", "Postgres, MySQL and SQL Server migrations run and give the declared schema",
     "For Postgres, MySQL and SQL Server, the files generate writes from any existing schema to any declared schema (structs or a catalog), applied in the order of their names, are accepted by the server, however the objects are named and in whatever schema they are: every name is quoted where the server needs it, every object exists when it is used, nothing is dropped while something depends on it, and statements that may not run in a transaction do not. They lead to exactly the declared tables, columns (type, NOT NULL, default, identity or AUTO_INCREMENT, collation), primary keys, unique constraints, foreign keys (columns, target, rules, deferrability) and indexes; with -drop-objects nothing else of these remains, without it whatever existed stays, apart from a replaced primary key; check constraints and generated columns, which are not managed, are untouched either way. Generating again from the result writes no file. (Four SQL Server statements pinned by the tests are recorded defects.)",
     ["inputs", "configurations", "histories"], "for all histories of declared schemas of the three dialects, server versions, names and -drop-objects settings",
     "correct order and text depend on the combination of all changes, and the tests compare a few fixed files without any server",
     ["ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/generate_cmd.go", "ddl/ddl.go"],
     [("Postgres", "ddl/postgres_migration.go:newPostgresMigration"), ("MySQL", "ddl/mysql_migration.go:newMySQLMigration"), ("SQL Server", "ddl/sqlserver_migration.go:newSQLServerMigration"), ("comparison of types and defaults", "ddl/ddl.go:normalizeColumnType")],
     None, ["every generated statement executed by a strict interpreter of the dialect's DDL", "schema of the model server after each migration against the declared one", "files of a second generate"],
     technique="runtime oracle: the real generate runs over random schema histories, its files are executed statement by statement on model servers that enforce the dialect's naming, ordering and dependency rules, and the resulting schema is compared object by object with the declaration")

prop("G04", "Generated migrations are safe, undoable and warn about what is unsafe",
     "What generate writes for an existing database follows the documented rules for safe migrations. On Postgres, indexes on existing tables are created CONCURRENTLY, alone in a file that runs outside a transaction; primary keys and unique constraints are added from an index created that way; foreign keys are added NOT VALID and validated in a separate transaction; and (Postgres 12 and later) NOT NULL is only set after a check constraint for it has been validated in a separate transaction. If a file that runs outside a transaction stops after any of its statements, its undo file is accepted and leaves nothing of the file behind and everything that was there before (except what the file dropped); every undo file belongs to such a file. A warning naming the table and column is issued for exactly the changes documented as unsafe: a type change other than the safe widenings, NOT NULL on an existing column before Postgres 12, a new column with DEFAULT or IDENTITY before Postgres 11, a new NOT NULL column without default on Postgres and SQL Server, and identity added to an existing SQL Server column. With warnings and without -accept-warnings, generate fails, mentions every warning and writes nothing; otherwise it writes the files whose names sort in the order they must run in, and lists them. A dry run writes no file and shows the same statements and warnings.",
     ["inputs", "configurations", "histories", "faults"], "for all histories of declared schemas of the three dialects, server versions, -drop-objects settings and points at which a non-transactional file stops",
     "each rule concerns every combination of changes to every object, and an undo file matters only after a failure at some statement; the tests compare fixed text and run nothing",
     ["ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/generate_cmd.go"],
     [("Postgres files", "ddl/postgres_migration.go:(*postgresMigration).sql"), ("MySQL files", "ddl/mysql_migration.go:(*mysqlMigration).sql"), ("SQL Server files", "ddl/sqlserver_migration.go:(*sqlserverMigration).sql"), ("warnings", "ddl/generate_cmd.go:(*GenerateCmd).Run")],
     None, ["events of the model server: kind of every index, constraint and validation, and the file (transaction) it happened in", "schema after each prefix of a non-transactional file followed by its undo file", "warnings, error and files of generate with and without -accept-warnings and -dry-run"],
     technique="runtime trace monitor: model servers execute the generated files of random schema histories and record lock-relevant events per transaction, each non-transactional file is stopped after every statement and undone, and warnings are checked against the documented rules")

prop("X02", "A command that could not do its work never reports success",
     "If any database call or file operation that a command (migrate, touch, rm, mv, ls, tables, views, generate, automigrate, dump, load, wipe, reading a catalog) depends on fails, at any point, the command returns an error that carries the cause; it does not report success with partial output. This covers statements, result sets that break off while being read, commits, reading, creating and writing files (a full disk included) and writing the output itself, whether the database was opened by the command or handed to it.",
     ["faults", "inputs", "configurations"], "for all commands, dialects and points of failure",
     "error handling is code that succeeds in every test; only a failure at the particular call shows whether it is propagated",
     ["ddl/migrate_cmd.go", "ddl/touch_cmd.go", "ddl/rm_cmd.go", "ddl/mv_cmd.go", "ddl/ls_cmd.go", "ddl/tables_cmd.go", "ddl/views_cmd.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/dump_cmd.go", "ddl/load_cmd.go", "ddl/wipe_cmd.go", "ddl/database_introspector.go"],
     [("migrate", "ddl/migrate_cmd.go:Run"), ("dump", "ddl/dump_cmd.go:Run"), ("load", "ddl/load_cmd.go:Run"), ("introspection", "ddl/database_introspector.go:WriteCatalog"), ("other commands", "ddl/touch_cmd.go:Run")],
     None, ["driver call, file operation or write that was made to fail", "error returned by the command", "output of a successful run with the same seed"],
     technique="fault injection with a runtime oracle: every driver call, file operation and output write of each command is made to fail in turn on real SQLite and emulated servers, and the returned error is checked")

prop("X03", "Commands leave nothing behind: connections, transactions, files, sessions",
     "When a command returns, whether it succeeded, failed at any database call or file operation or was cancelled, none of its transactions, prepared statements, result sets, connections in use, open files or goroutines remain. A database the command opened from -db is closed; a database handed to it (as library users do) stays open, usable and with the session settings it had (foreign key enforcement included).",
     ["faults", "inputs", "schedules"], "for all commands, dialects and points of failure or cancellation",
     "leaks show only on rarely taken paths and only when resources are counted, which no test does",
     ["ddl/migrate_cmd.go", "ddl/dump_cmd.go", "ddl/load_cmd.go", "ddl/wipe_cmd.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/database_introspector.go", "ddl/batch_insert.go"],
     [("migrate", "ddl/migrate_cmd.go:Run"), ("dump", "ddl/dump_cmd.go:Run"), ("load", "ddl/load_cmd.go:Run"), ("wipe", "ddl/wipe_cmd.go:Run"), ("generate", "ddl/generate_cmd.go:Run")],
     None, ["ledger of connections, transactions, statements and result sets at the driver boundary", "files opened and closed, and /proc/self/fd", "goroutines labelled with the command that started them", "session settings of every pooled connection"],
     technique="runtime resource ledger under fault and cancellation injection: a monitoring driver and file system count every acquisition and release of each command on real SQLite and emulated servers")

prop("X04", "Read-only commands and dry runs change nothing",
     "ls, tables, views, generate, dump and the dry runs of generate, automigrate and wipe leave the database exactly as it was and send it no statement that would change it (ls does not create a history table either), whether they succeed, fail or are cancelled. No command changes, creates or removes files other than its declared output: migrate, touch, rm, load, wipe and dry runs write none, the others only the files they are documented to write, in the place they were told.",
     ["inputs", "configurations", "faults"], "for all commands, dialects, databases and points of failure or cancellation",
     "absence of effects concerns everything around the command, and the tests look only at its output",
     ["ddl/ls_cmd.go", "ddl/tables_cmd.go", "ddl/views_cmd.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/dump_cmd.go", "ddl/wipe_cmd.go"],
     [("ls", "ddl/ls_cmd.go:Run"), ("generate", "ddl/generate_cmd.go:Run"), ("automigrate", "ddl/automigrate_cmd.go:Run"), ("wipe", "ddl/wipe_cmd.go:Run"), ("dump", "ddl/dump_cmd.go:Run")],
     None, ["contents and file bytes of SQLite databases and catalogs of emulated servers before and after", "every statement sent", "contents of the working directory before and after"],
     technique="runtime state monitor: each command runs, undisturbed and with failures and cancellations injected, and the complete state of database and directory is compared before and after while every statement is watched")

prop("X05", "The command line does exactly what its flags and the library say",
     "Running sqddl with any valid combination of documented flags, in any of Go's flag spellings and with -db before or after the subcommand, has the same effect, output, error and status as running the corresponding library command with the corresponding fields: every flag reaches its own field unchanged, unset flags have their documented defaults, file names may be given relative to the working directory or to -dir, and repeated or comma-separated lists keep all values. The exit status is 0 exactly when the command succeeded and the error is written to stderr. Unknown subcommands and flags, missing or malformed values and a missing or unusable -db are refused with a message and a non-zero status before anything is changed; -h and help list every documented flag and succeed.",
     ["inputs", "configurations"], "for all subcommands, flag combinations, flag spellings and working directories",
     "each flag is wired by hand in a dozen places, and the existing tests build the commands directly or with a few fixed argument lists",
     ["sqddl.go", "ddl/migrate_cmd.go", "ddl/touch_cmd.go", "ddl/rm_cmd.go", "ddl/mv_cmd.go", "ddl/ls_cmd.go", "ddl/tables_cmd.go", "ddl/views_cmd.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/dump_cmd.go", "ddl/load_cmd.go", "ddl/wipe_cmd.go"],
     [("dispatch", "sqddl.go:main"), ("flags", "ddl/migrate_cmd.go:MigrateCommand"), ("flags", "ddl/dump_cmd.go:DumpCommand"), ("flags", "ddl/load_cmd.go:LoadCommand")],
     None, ["exit status, stdout, stderr, directory tree and database of the real program", "the same of a process that fills the library's fields directly", "fields of the command built from the arguments"],
     technique="runtime differential oracle: the compiled program and a process calling the library run in two identical worlds with random flags, and exit status, output, files and database are compared; built commands are compared field by field with what the flags say")

prop("X06", "Database URLs and driver errors are understood for every driver",
     "Every documented form of -db (SQLite files by suffix, file:, sqlite: and sqlite3: forms; postgres://; MySQL in its own form and as mysql://; sqlserver:// with the database as path or parameter; and file: naming a file that holds one of these) is recognised as its dialect, and the database driver reads from the result exactly the given user, password, host, port, database and options, special characters included; options sqddl needs (sslmode=disable, allowAllFiles, multiStatements, parseTime, foreign keys on) are added only where the user said nothing. Anything else is refused. An error of the lib/pq, pgx, MySQL or SQL Server driver during a migration is retried up to the given number of attempts exactly when it is a lock timeout; when reported it keeps its type, its text and its details verbatim, names the file, and for lib/pq and SQL Server gives the line of the script it occurred at.",
     ["inputs", "faults"], "for all accounts, hosts, databases and options in every documented form, and all driver errors",
     "escaping rules of four URL syntaxes meet here, and the errors only come from servers the tests do not have",
     ["ddl/ddl.go", "drivers/ddlsqlite3/ddlsqlite3.go", "drivers/ddlpostgres/ddlpostgres.go", "drivers/ddlpgx/ddlpgx.go", "drivers/ddlmysql/ddlmysql.go", "drivers/ddlsqlserver/ddlsqlserver.go"],
     [("recognition", "ddl/ddl.go:NormalizeDSN"), ("MySQL", "drivers/ddlmysql/ddlmysql.go:Register"), ("SQL Server", "drivers/ddlsqlserver/ddlsqlserver.go:Register"), ("Postgres", "drivers/ddlpostgres/ddlpostgres.go:Register"), ("retry", "ddl/migrate_cmd.go:Run")],
     None, ["result of NormalizeDSN read by the drivers' own parsers", "file and settings of the SQLite database really opened", "attempts made and error returned by a migration whose statement fails with a driver's error"],
     technique="runtime oracle: random accounts are written in every documented form, normalised by the real code and read back with the drivers' own parsers (SQLite is opened); genuine driver error values are injected into migrations on emulated servers and attempts and reports are monitored")

prop("S04", "Catalogs are looked up, merged, copied and stored without loss",
     "After any sequence of lookups, creations and updates through a catalog cache, every lookup of a schema, enum, domain, routine, view, table, column, constraint, index or trigger gives exactly the object the catalog holds under that name (and nothing where it holds none, or in an object that was not found); creating an existing object returns it, updating replaces it in place, the primary key and the foreign keys of a table are its current ones, and an object marked ignored stays so. Copying a catalog into another one, writing it as JSON and reading it back gives an equal catalog that shares nothing with the original and leaves the original as it was; copying it twice changes nothing more, and copying into a catalog that has other objects keeps those. A -src or -dest that lists several databases, schema.json files, directories, zip or tgz archives or Go files is the union of what each gives alone.",
     ["inputs", "histories"], "for all catalogs and all sequences of cache operations, and all lists of sources",
     "the cache is an index kept by hand beside the catalog; it goes wrong only after particular sequences of replacements, and the tests copy one catalog",
     ["ddl/catalog_cache.go", "ddl/generate_cmd.go", "ddl/ddl.go"],
     [("cache", "ddl/catalog_cache.go:NewCatalogCache"), ("copy", "ddl/catalog_cache.go:(*Catalog).WriteCatalog"), ("sources", "ddl/generate_cmd.go:writeCatalog")],
     None, ["object returned by every lookup, against a linear scan of the catalog", "copy against original, and pointers they share", "catalog of a list of sources against the catalogs of its members"],
     technique="runtime model checking of operation histories: random operations run on the real cache while every lookup is compared by identity with a linear scan of the catalog; copies are compared structurally and for sharing")

prop("S05", "Names, values, parameters and versions are written and read exactly",
     "For every dialect a name written by QuoteIdentifier is read by the server as exactly that name (names of every character other than NUL, reserved words of the dialect in any case included; only the pseudo tables EXCLUDED, INSERTED, DELETED, NEW and OLD in capitals are left as they are). A value written by Sprint (nil, booleans, integers, floats, strings, bytes, times, pointers, sql.Null types, named arguments and driver.Valuers) is read as that value; times are written in UTC to the second for SQLite and MySQL, and with fraction and zone for Postgres and SQL Server. Sprintf replaces exactly the parameters of the dialect (?, ?1, $1, $name, :name, @name, @p1) by their own arguments, whatever follows them, and leaves string literals and quoted names alone. What cannot be written (infinities, unsupported types, failing Valuers, missing arguments, an unclosed quote) is an error, never a panic. VersionNums are compared number by number, missing numbers counting as zero and an unknown version as the latest. Timestamp reads every documented text form, seconds, milliseconds and time values as the same instant, and NULL or empty text as no time.",
     ["inputs"], "for all identifiers, values, queries, versions and timestamps of every dialect",
     "quoting and escaping must hold for every text; the tests have a few names and almost no values",
     ["ddl/sq.go", "ddl/ddl.go"],
     [("names", "ddl/sq.go:QuoteIdentifier"), ("values", "ddl/sq.go:Sprint"), ("parameters", "ddl/sq.go:Sprintf"), ("timestamps", "ddl/sq.go:(*Timestamp).Scan"), ("versions", "ddl/ddl.go:VersionNums.LowerThan")],
     None, ["name and value SQLite reads from the written text", "tokens and value a lexer of the other dialects reads", "interpolated query against the one known from its pieces", "results of comparing versions and reading timestamps"],
     technique="runtime round-trip oracle: names, values and queries written by the real code are read back by SQLite itself and by lexers of the other dialects")

prop("X01", "Commands running at the same time are race free and independent",
     "Any number of commands may run at the same time in one process, each with its own database, or, for commands that only read, on one shared database handle: there is no data race, and each gives the error, output, files and database contents it gives alone. The same holds within a command that works on several files or tables in parallel (dump into a directory, load of a directory or archive): every file is processed exactly once, complete, and its message is written whole to the Stderr it was given, which need not be safe for concurrent use. Library functions (quoting, interpolation, drivers and their registration, struct parsing, introspection, catalog copies and generated migrations) may be called concurrently and do not change the values they were given to read.",
     ["schedules", "inputs"], "for all sets of commands and all interleavings of their database calls",
     "data races and shared buffers show only under particular interleavings, and the tests run one command at a time without the race detector",
     ["ddl/ddl.go", "ddl/dump_cmd.go", "ddl/load_cmd.go", "ddl/database_introspector.go", "ddl/migrate_cmd.go", "ddl/catalog_cache.go"],
     [("parallel dump", "ddl/dump_cmd.go:dumpDir"), ("parallel load", "ddl/load_cmd.go:loadDir"), ("shared templates", "ddl/database_introspector.go:queryContext"), ("buffer pool", "ddl/ddl.go:bufpool"), ("driver registry", "ddl/ddl.go:Register")],
     None, ["reports of the Go race detector", "error, output, messages, files and database of every command alone and together", "rows and messages of files loaded in parallel"],
     technique="dynamic race detection (Go race detector) over random sets of commands run together with delays injected at driver calls, with a differential oracle against each command run alone")

NOT_CLAIMED = {}
