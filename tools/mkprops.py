# Source of properties.jsonl (python3 tools/mkprops.py rewrites it).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": None}})

REPO = ["src/repository/default.rs", "src/repository/sqlite.rs", "src/repository/interface.rs", "migrations/sqlite"]
p("C01", "The metadata catalog is exactly the net effect of the successful operations",
  "After any sequence of creating, looking up, renaming, moving and dropping databases, schemas and tables, listing and looking up names returns precisely the objects that successful operations have left in place, each under its current name, schema and database, with its own identifier, storage UUID and columns. Two live objects never share a name in the same parent, the same name in different parents denotes different objects, and each rejected operation reports its cause (duplicate name, missing parent or missing object).",
  ["histories", "inputs"], "every sequence of catalog operations over several databases, schemas and tables, including name collisions, moves between schemas and missing targets",
  "The repository tests run one fixed history of about ten operations; they never combine moves, drops, re-creation and several databases.",
  REPO, [("SQL statements and constraints of the catalog store", "src/repository/default.rs"), ("unique constraints and foreign keys", "migrations/sqlite")],
  [("database/collection/table rows", "the namespace tree", "migrations/sqlite")], ["listing of a database's schemas, tables and columns", "lookups by name"])
p("C02", "A failed catalog operation leaves no trace",
  "An operation on the metadata catalog that reports an error, whatever the cause (a duplicate, a missing object, a database fault or a lost connection at any step), leaves every database, schema, table, version, column and function exactly as it was. An operation that reports success has taken full effect, including all of a new table's or new version's columns.",
  ["fault_sequences", "crash_points", "histories"], "every catalog operation, in every reachable catalog state, with a fault injected at each storage statement and each connection acquisition it makes",
  "No test injects a storage fault; the tests only see statements that succeed or violate one constraint.",
  REPO, [("one transaction per operation", "src/repository/default.rs")],
  [("catalog rows", "everything the catalog stores", "migrations/sqlite")], ["catalog contents before and after a failing call"])
p("C03", "A table always shows its newest version, and pruning keeps exactly that one",
  "Each recorded write adds one version to the table it was made on, carrying the given version number and the table's columns, and leaves every other table untouched. Listing a database shows each table at its most recently recorded version with exactly that version's columns, the version history lists every retained version of the tables asked for, and pruning old versions removes all versions of that one table except the one being shown and reports how many it removed.",
  ["histories", "inputs"], "all histories of table creation, version recording, pruning, renames and drops over several tables and databases",
  "Tests record one version of one table and never prune; latest-version selection with several interleaved tables is not sampled.",
  REPO, [("latest version selection", "src/repository/sqlite.rs"), ("version insertion and pruning statements", "src/repository/default.rs")],
  [("table_version rows", "version history per table", "migrations/sqlite")], ["database listing", "version history listing"])
p("C04", "Dropping an object removes everything under it and nothing else",
  "Dropping a table removes the table with all its versions and columns; dropping a schema also removes all its tables; dropping a database also removes its schemas, tables and functions. Nothing outside the dropped object changes, nothing of it survives in any listing or in storage, and an object later created under the same name starts empty.",
  ["histories"], "all catalog histories that contain drops at each level, with sibling objects of equal names",
  "The test suite of the catalog store drops nothing at all.",
  REPO, [("delete statements", "src/repository/default.rs"), ("ON DELETE CASCADE foreign keys", "migrations/sqlite")], (), ["listings and raw row counts after a drop"])
p("C05", "Stored functions are created, replaced and dropped by name within one database",
  "After any sequence of function creations, replacements and drops, each database holds exactly the functions last successfully created and not since dropped, with every attribute (entrypoint, language, argument types, return type, code, volatility) equal to what the last creation supplied. Creating an existing function without asking for replacement fails and changes nothing, replacement keeps the identity and changes only that function, and dropping several functions at once drops every one of them that exists and no other.",
  ["histories", "inputs"], "all sequences of create / create-or-replace / drop over several names and databases and all attribute values",
  "One creation and one replacement are tested; drops, multi-name drops and several databases are not.",
  REPO + ["src/wasm_udf/data_types.rs", "src/catalog/repository.rs"], [("function upsert and deletion statements", "src/repository/default.rs")], (), ["functions listed for a database"])
p("C06", "Pending deletions of dropped tables are tracked per table until completed",
  "The record of tables awaiting physical deletion returns exactly the outstanding entries, restricted to the requested database when one is given. Changing the status of an entry or completing it affects that entry alone, unknown entries are reported as missing, and a status that is written is the status that is read back.",
  ["histories", "inputs"], "all sequences of listing, status updates and completions over entries of several databases",
  "No test touches the pending-deletion records of the catalog store.",
  ["src/repository/default.rs", "src/repository/interface.rs", "src/utils.rs", "migrations/sqlite"], [("dropped_table statements", "src/repository/default.rs")], (), ["listing of dropped tables"])
p("C07", "Concurrent catalog operations behave as if run one after another",
  "When several clients operate on the metadata catalog at the same time, each operation takes effect atomically at one point between its start and its end: results and final contents equal those of some sequential order. Of several clients creating the same object exactly one succeeds, concurrently recorded versions are all retained, and a version never appears without its columns.",
  ["schedules"], "all interleavings of two or three concurrent operations at connection-acquisition granularity, for all pairs of operation kinds",
  "Every repository test is sequential.",
  ["src/repository/default.rs", "src/repository/sqlite.rs"], [("transactions over a bounded connection pool", "src/repository/sqlite.rs")], (), ["results of the concurrent calls", "catalog contents afterwards"])
p("C08", "Catalog contents survive restarts and crashes",
  "Everything a successful catalog operation stored is still there, unchanged, after the process is stopped or killed at any moment and the catalog is opened again, however often it is reopened and whichever journal mode is configured. A catalog opened read-only returns the same contents and refuses every modification without changing anything.",
  ["crash_points", "histories", "configurations"], "all crash points between and inside operations, any number of reopenings, every journal mode, read-only and read-write",
  "Tests use a fresh database and never reopen or kill.",
  ["src/repository/sqlite.rs", "src/repository/default.rs", "migrations/sqlite"], [("SQLite transactions and journal", "src/repository/sqlite.rs"), ("idempotent setup and migrations", "src/repository/default.rs")], (), ["catalog contents after reopening"])

p("T01", "Time-travel references read the requested version and nothing else changes",
  "In a query, every table reference that carries an explicit version or timestamp, in any position a table may appear, is redirected to that table at exactly that version, under its fully qualified name, and is reported as needing it. References without a version, other table functions and every other part of the query are left as they were, and one query may use several versions of the same table at once.",
  ["programs", "inputs"], "all queries built from joins, subqueries, CTEs, set operations and aliases over versioned and plain references, with any qualification",
  "Tests rewrite two fixed queries.",
  ["src/version.rs", "src/context/logical.rs"], [("table version visitor", "src/version.rs")], (), ["rewritten query text", "set of required versions"])
p("T02", "A version timestamp selects one instant, independent of how it is written",
  "Every supported way of writing the same instant selects the same point in time, timestamps without a zone are read as UTC, and anything that is not a timestamp is rejected with an error. Different versions of one table never collide under the same internal name.",
  ["inputs"], "all timestamp spellings (date and time separators, fractional seconds, offsets, zone suffixes) and all non-timestamps",
  "A handful of literal formats are tested.",
  ["src/version.rs"], [("version string parsing", "src/version.rs")], (), ["parsed instant", "error"])

p("P01", "A query text is split into exactly the statements it contains",
  "A text of several statements separated by semicolons is parsed into those statements, each parsed as if it stood alone, in order; empty statements are skipped; and a text in which any statement is malformed, or two statements are not separated, is rejected as a whole with an error, never a panic.",
  ["programs", "inputs"], "all sequences of standard and extension statements, with any number of semicolons, comments and whitespace between them, and malformed variants",
  "Tests parse single statements; sequences mixing extension and standard statements are not covered.",
  ["src/datafusion/parser.rs"], [("statement loop", "src/datafusion/parser.rs")], (), ["list of parsed statements", "error"])
p("P02", "Extension statements mean what they say, whatever their spelling",
  "Each extension statement (vacuuming a table or a database, converting a location to a table, external tables, copying out, truncating) is recognised with keywords in any case and with any quoting, and carries exactly the names, locations, options and flags written in it. A statement that combines or omits clauses in a way the grammar does not allow is rejected instead of being read as a different statement.",
  ["programs", "inputs"], "all statements derivable from the extension grammar and single-clause corruptions of them",
  "Only a few dozen fixed spellings are tested.",
  ["src/datafusion/parser.rs"], [("hand-written statement parsers", "src/datafusion/parser.rs")], (), ["parsed statement"])
p("P03", "Declared columns become a table schema with the declared types and nullability",
  "Each column definition of a new table yields a column of the declared name and type, nullable unless declared otherwise, in declaration order. Unsupported column types are rejected with an error instead of being changed to something else.",
  ["inputs"], "all column lists over every SQL type with every precision, scale and time zone form and every column option",
  "Tests sample some types.",
  ["src/datafusion/utils.rs"], [("SQL type conversion", "src/datafusion/utils.rs")], (), ["table schema"])

p("W01", "A user-defined function is applied to each row independently and exactly once",
  "For every supported argument and return type, the result of a user-defined function on a batch holds, at each row, the value its code computes from that row's argument values, regardless of batch size, row position, constant arguments and the other rows. Values of every supported type reach the function and come back unchanged.",
  ["inputs", "programs"], "all supported types, batch sizes and argument shapes (constants and columns), both calling conventions, and boundary values",
  "Tests call a few functions on short batches with a few values.",
  ["src/wasm_udf/wasm.rs", "src/wasm_udf/data_types.rs"], [("per-row invocation of the module", "src/wasm_udf/wasm.rs"), ("value encoding and decoding", "src/wasm_udf/wasm.rs")], (), ["result column of a function call"])
p("W02", "A broken user-defined function fails its query and never the server",
  "Whatever a user-defined function's code or declaration does (missing or wrongly typed exports, traps, out-of-range pointers, malformed or wrongly typed results, unsupported types, wrong argument counts), registering or calling it either succeeds or returns an error to the caller. The process does not panic, and no value is silently invented for a failing row.",
  ["inputs", "programs", "fault_sequences"], "all kinds of defective modules and declarations, at registration and at each step of a call",
  "A few defective modules are tested.",
  ["src/wasm_udf/wasm.rs"], [("error propagation from the runtime", "src/wasm_udf/wasm.rs")], (), ["error or result", "absence of panics"])
p("W03", "A function definition means the same after it was stored and loaded again",
  "Every function definition that is accepted is stored so that loading it yields the same entrypoint, language, argument types, return type, code and volatility, for every spelling of the types accepted in definitions. Type names are accepted in any letter case and unknown ones are rejected.",
  ["inputs"], "all accepted definitions: each type spelling, language and volatility, any argument list",
  "Tests round-trip single examples.",
  ["src/wasm_udf/data_types.rs", "src/repository/default.rs", "src/catalog/repository.rs"], [("textual encodings of types, languages and volatility", "src/wasm_udf/data_types.rs")], (), ["definition before and after storage"])

p("F01", "A filter sent to a remote database selects exactly the same rows there",
  "Whenever a filter is delegated to a remote database, the text sent denotes, in that database's SQL, the same predicate: it accepts a row exactly if the filter does, including NULLs, operator grouping, negation and literal values of every type. It never depends on how the filter's sub-expressions are nested.",
  ["inputs", "programs"], "all filter expressions built from columns, literals, comparisons, arithmetic, boolean operators, null tests, lists, ranges and pattern matches, nested to any depth",
  "Each test checks one small expression against a fixed string; nested combinations that need grouping are barely sampled.",
  ["datafusion_remote_tables/src/filter_pushdown.rs", "datafusion_remote_tables/src/provider.rs"], [("expression-to-SQL translation", "datafusion_remote_tables/src/filter_pushdown.rs")], (), ["generated SQL evaluated by the remote engine"])
p("F02", "A filter with no exact remote counterpart stays local and is never guessed",
  "If any part of a filter has no exact counterpart in the remote database's SQL, the whole filter is refused for delegation with an error, so that it is evaluated locally. Column names are always quoted such that they denote the column of exactly that name, and text literals such that they denote exactly that text.",
  ["inputs"], "all filters containing unsupported operators, functions, types or placeholders at any depth, and all identifiers and strings with quoting characters",
  "Tests cover a couple of unsupported operators at the top level.",
  ["datafusion_remote_tables/src/filter_pushdown.rs"], [("per-source operator tables", "datafusion_remote_tables/src/filter_pushdown.rs")], (), ["error", "quoted identifiers and literals"])

p("M01", "Memory accounting equals what is reserved, and the limit is enforced",
  "The memory pool shown to queries grants and refuses reservations exactly as its configured limit demands, and the reported current reservation always equals the sum of the outstanding reservations. Allocated and freed totals equal the sums of successful and refused growth and of releases, per kind of consumer.",
  ["histories", "inputs"], "all sequences of growing, trying to grow, shrinking, resizing, freeing and dropping reservations by several consumers",
  "One fixed sequence with one consumer is in a test that is not even built here.",
  ["src/memory_pool.rs"], [("forwarding pool with metrics", "src/memory_pool.rs")], (), ["pool answers", "exported metrics"])
p("O01", "Moving a finished file into local storage is complete and loses nothing",
  "Placing a finished temporary file in the local object store makes exactly its content available at the target path, creating missing directories, replacing whatever was there and removing the source, also when source and target are on different filesystems. If it reports an error, the source file still exists with its content.",
  ["inputs", "fault_sequences"], "all combinations of source, target, directory and filesystem states, including failures",
  "There is no test of this path.",
  ["src/object_store/utils.rs"], [("rename with copy fallback", "src/object_store/utils.rs")], (), ["file contents at source and target"])
p("H01", "Every API error maps to its documented HTTP status and explanation",
  "Each kind of request failure is answered with one fixed status: authentication problems 401, permission problems 403, a disallowed method or disabled endpoint 405, server-side I/O problems 500, and all other client mistakes 400, with a body that identifies the failure. The answer is the same whether the failure arises while a request is being admitted or while it is being served.",
  ["inputs", "configurations"], "all failure kinds and both ways they reach the client",
  "The HTTP tests sample some of the failures.",
  ["src/frontend/http_utils.rs"], [("status table and rejection handler", "src/frontend/http_utils.rs")], (), ["HTTP status and body"])
p("N01", "A planned statement survives planning unchanged and equals only its like",
  "The plan of a Seafowl statement (create, convert, rename, truncate or vacuum a table, create or drop a function) is carried through cloning, rebuilding and optimization with every name, flag, schema and function detail unchanged, has no inputs or result columns, and is explained with the objects it acts on. Two plans compare equal exactly if they denote the same action with the same parameters, and equal plans hash alike.",
  ["programs", "inputs"], "all plans of every kind over several names, flags, schemas and function details, and all pairs of them",
  "No test inspects these plans; equality and rebuilding are used implicitly by the optimizer.",
  ["src/nodes.rs"], [("user-defined logical nodes", "src/nodes.rs")], (), ["plan after optimization", "equality and EXPLAIN text"])
p("O02", "Storage settings select the store they describe, wherever they come from",
  "Options given for an object store, in any accepted spelling, are taken as given and never overridden by environment variables, which only fill in missing settings; a service account path or key from the environment is used only if neither was given, the path first, each as what it is. Unknown options are refused by name. Configured local and Google stores keep exactly their directory, bucket, prefix, credentials and flags, and the options, URL and base path that describe them to others denote the same store.",
  ["configurations", "inputs"], "all combinations of given options, spellings, environment variables and configuration fields",
  "Tests set one variable or option at a time.",
  ["object_store_factory/src/google.rs", "object_store_factory/src/local.rs"], [("option mapping and environment defaults", "object_store_factory/src/google.rs"), ("configuration to and from options", "object_store_factory/src/local.rs")], (), ["resolved options", "configuration fields"])
p("O03", "A local or in-memory store holds exactly the objects put into it",
  "A store built from its configuration contains exactly the objects put there and not deleted since, each with its content and, for a local store, as a file at its path below the configured directory. Removing the last object of a local directory removes the directory, up to but not including the root; stores built separately in memory share nothing.",
  ["histories"], "all sequences of putting, creating and deleting objects in nested directories",
  "Tests only check that the stores can be built.",
  ["object_store_factory/src/local.rs", "object_store_factory/src/memory.rs"], [("construction of stores", "object_store_factory/src/local.rs")], (), ["objects listed and read", "files and directories below the root"])
p("L01", "The command line runs what was typed, once, completely and in order",
  "Typed lines accumulate until they begin with a backslash command or end with a semicolon (trailing blanks apart); each complete input is then acted on exactly once before the next is read, and unfinished input never. Every statement of an input is planned before any of them runs, results are shown in order, a failure ends its input but not the session, unknown commands do nothing, and only quitting or the end of input ends the session.",
  ["histories", "inputs"], "all sequences of typed lines: commands with and without arguments, blank, partial, multi-statement and failing inputs",
  "There is no test of the command line.",
  ["src/cli/mod.rs", "src/cli/commands.rs", "src/cli/helper.rs"], [("read loop", "src/cli/mod.rs"), ("completeness of input", "src/cli/helper.rs"), ("command names", "src/cli/commands.rs")], (), ["statements handed to the engine", "output"])
p("A01", "No request does more than its credentials and the access policy allow",
  "For every access policy and every presented credential, a request can read only if reads are open to all or it presented the read or the write password, and can write only if writes are open to all or it presented the write password. Wrong, useless, missing or malformed credentials are rejected as such, and disabling an access kind denies it to everyone without a higher password.",
  ["inputs", "configurations"], "all combinations of read policy, write policy, credential and action",
  "The tests sample about a third of the combinations.",
  ["src/auth.rs", "src/frontend/http.rs", "src/config/schema.rs"], [("token resolution and permission check", "src/auth.rs")], (), ["authorization decision"])
p("H02", "An answer over HTTP is current and about the database it was asked of",
  "A query answered over HTTP returns the rows the tables hold at that time, in the database the path names (the default one otherwise), whichever way the query is passed; so does what a client that revalidates a remembered answer by its ETag ends up with: 304 Not Modified is given only while nothing the query reads has changed, including tables used only in subqueries and system tables. Writes and uploads over HTTP change exactly the named table of the named database, and a request to a missing database, with a wrong query hash, an invalid statement or a write over GET changes nothing and reports its error.",
  ["histories", "inputs"], "all histories of conditional and plain requests over all query forms and the changes of the tables they read",
  "The tests revalidate one query over one table.",
  ["src/frontend/http.rs"], [("ETag of a plan", "src/frontend/http.rs"), ("routes and scoping to a database", "src/frontend/http.rs")], (), ["HTTP responses", "table contents"])
p("K01", "Cached reads return the bytes of the underlying object",
  "Reading any range of an object through the cache returns exactly the bytes a direct read of the store would return (a range that reaches past the end of the object may be refused), for every sequence of earlier reads, every chunk size and alignment, evictions and expiries, concurrent readers and failing cache files or store requests. A failed request is reported and does not poison later reads.",
  ["histories", "schedules", "inputs", "fault_sequences"], "all sequences and interleavings of range reads over several objects, with evictions, expiry, lost cache files and store errors",
  "A few fixed ranges over one object are tested, in a part not built here.",
  ["src/object_store/cache.rs"], [("chunked file cache with coalesced requests", "src/object_store/cache.rs")], (), ["bytes returned"])
p("K02", "The cache stays within its capacity and leaves no files behind",
  "Once pending maintenance has run, the data the cache holds on disk is no larger than its capacity, every file it holds belongs to a live entry, and every evicted or expired entry's file is removed. Reading a cached chunk again does not ask the store again while its entry lives and its file is intact, and what fits in the cache stays in it until it expires. When the cache goes away, so do its files.",
  ["histories", "schedules"], "all read sequences, capacities and expiry times",
  "One eviction scenario is tested, in a part not built here.",
  ["src/object_store/cache.rs"], [("weighted cache with eviction listener", "src/object_store/cache.rs")], (), ["cache directory contents", "requests seen by the store"])
p("D01", "Statements change tables exactly as SQL says, or not at all",
  "After any sequence of CREATE TABLE (also AS SELECT), INSERT (VALUES or SELECT), UPDATE, DELETE, TRUNCATE, DROP, ALTER TABLE RENAME, VACUUM and file uploads, every table holds exactly the rows that follow from the statements that succeeded: a row is updated or deleted exactly if the predicate is true for it (not if it is NULL), assignments see the row as it was, columns left out are NULL, multiplicities count, however rows are spread over data files. A statement which fails (unknown or existing table, NULL for a NOT NULL column, an error while computing a row) changes nothing and leaves no table behind; IF [NOT] EXISTS makes it succeed without effect. Other tables are not affected.",
  ["histories", "inputs"], "all sequences of statements over small tables and predicates with NULLs; long random ones with nested predicates",
  "Tests run a few statements on fixed data without NULLs, in a part not built here.",
  ["src/context/logical.rs", "src/context/physical.rs", "src/context/delta.rs"], [("plans of DML statements", "src/context/logical.rs"), ("execution of DML and DDL", "src/context/physical.rs"), ("writing of data files and commits", "src/context/delta.rs")], (), ["table contents", "success or failure of statements", "nullability of columns"])
p("D02", "The rows of a statement are stored exactly, in files of bounded size",
  "Whatever rows a statement produces, in whatever batches and partitions, and however large they are, the data files written for it hold exactly those rows, each once; no file has more rows than configured; each file is reported with its name, size and number of rows, and no other file is left behind. If any part of writing or uploading fails, the statement fails instead of reporting files which are missing or incomplete.",
  ["inputs", "fault_sequences"], "all divisions of rows into batches and partitions, all limits, rows of a few bytes to several MB, a failure at each request of an upload, a directory or an object store as the destination",
  "Tests write a handful of rows in one batch; no test writes a file of several parts or lets an upload fail.",
  ["src/context/delta.rs", "src/object_store/utils.rs"], [("division of rows into files", "src/context/delta.rs"), ("uploading in parts", "src/context/delta.rs"), ("moving of files", "src/object_store/utils.rs")], (), ["rows of the files", "files reported and files there", "success or failure"])
p("D03", "Schemas and tables are shared by all servers, external tables are one server's",
  "CREATE and DROP SCHEMA and TABLE, and ALTER TABLE RENAME between schemas, take effect at once for all servers over the same catalog and survive their restarts; dropping a schema drops its tables and nothing else; statements about what doesn't exist (or does already) fail and change nothing, unless they say IF [NOT] EXISTS. An external table shows exactly the rows of its file, on the server it was created on and until it is dropped there or the server restarts; it can only be in the staging schema, which can be neither created nor dropped. Listings show exactly the schemas and tables that can be read.",
  ["histories"], "all sequences of statements about schemas, tables and external tables, sent to two servers in any order, with restarts",
  "Tests run on one server, drop one schema and one external table, and don't restart.",
  ["src/context/physical.rs", "src/provider.rs", "src/catalog/metastore.rs", "src/catalog/repository.rs"], [("execution of DDL statements", "src/context/physical.rs"), ("schemas as queries see them", "src/provider.rs")], (), ["information_schema", "rows of all tables", "success or failure of statements"])
p("D04", "A converted location is a table of the files there, and of no other",
  "CONVERT '<location>' TO DELTA name makes a table under that name of exactly the Parquet files (and all of their rows) which are at the location then, however the location is spelled; doing it again changes nothing, and neither do files put there later. If it fails (the name is taken, the location is another table's, is no location of the storage or has no such files) nothing has changed, and the location can still be converted. If it succeeds, the table is there, for all statements and after restarts. Dropping the table frees the location.",
  ["histories"], "all sequences of conversions, new files, creations, insertions, drops and restarts over a few locations and names",
  "One test converts one location twice under the same name, in a part not built here.",
  ["src/context/delta.rs", "src/context/physical.rs"], [("conversion of a location", "src/context/delta.rs"), ("execution of the statement", "src/context/physical.rs")], (), ["rows of the tables", "whether the location has become a table", "success or failure"])
p("D05", "An uploaded file is appended whole, or refused without a trace in tables",
  "Uploading a CSV or Parquet file over HTTP adds exactly its rows to the named table, which is made (with its schema) if it isn't there; the first line of a CSV file is a row if and only if the request says there is no header; columns of Parquet files are matched by name. A file which can't be read as rows of the table (wrong cells or columns, also late in the file, damaged, of another kind, missing) is answered with an error, and no table has changed, appeared or disappeared.",
  ["histories", "inputs"], "all sequences of uploads of sound and unsound files, in all forms the request may have, to tables that are there and that aren't",
  "Tests upload a few sound files, and check messages for some unsound requests, in a part not built here.",
  ["src/frontend/http.rs", "src/context/physical.rs"], [("reading the request", "src/frontend/http.rs"), ("loading the file", "src/context/physical.rs")], (), ["rows of the tables", "tables listed", "success or failure"])
p("T03", "Past contents of a table can be read as of any instant until vacuumed",
  "Reading t('<instant>') gives exactly the rows the table held at that instant, whatever statements (including TRUNCATE, RENAME and failing ones) came later, until the table is vacuumed or dropped; system.table_versions lists exactly the versions a table has gone through since it was created or vacuumed. VACUUM never changes the current contents.",
  ["histories"], "all sequences of statements interleaved with instants that are asked for later",
  "Tests read back a fixed history, in a part not built here.",
  ["src/version.rs", "src/context/logical.rs", "src/context/physical.rs", "src/repository/default.rs"], [("version selection", "src/version.rs"), ("recording of versions", "src/context/physical.rs")], (), ["rows of versioned reads", "system.table_versions"])
p("S01", "Replication never reports a change as durable before it is, and loses none",
  "For each origin, the sequence number reported as durable never decreases and never covers a transaction some of whose changes have not yet been committed to their tables, for every interleaving of incoming changes, transactions spread over several tables, and flushes. After everything is flushed, all accepted changes of each table have been applied in arrival order, once, and the last sequence of every origin is reported durable.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of enqueued changes from several origins and tables with flushes, including failing flushes",
  "Tests run a handful of fixed interleavings and are not built here.",
  ["src/sync/writer.rs"], [("transaction and flush bookkeeping", "src/sync/writer.rs")], (), ["reported memory and durable sequence numbers", "rows applied"])
p("S02", "Compacting a batch of row changes preserves its net effect",
  "Reducing a batch of inserts, updates, deletes and key changes to one change per row chain leaves the same table contents as applying the changes one after another, for any batch valid against the table, including chains that create and remove a row, repeated updates of one row and several optional columns. It never fails or panics on such a batch.",
  ["histories", "inputs"], "all valid sequences of row changes over a few keys, values and changed-flags, split into batches in any way",
  "A few fixed and one randomised case are tested, in a part not built here.",
  ["src/sync/utils.rs"], [("change chain squashing", "src/sync/utils.rs")], (), ["table contents after applying"])
p("S03", "Partition pruning for replicated changes never skips an affected file",
  "Any data file that may contain a row touched by a batch of replicated changes is included in the set of files to rewrite, for every key type and distribution, NULL statistics and files without statistics.",
  ["inputs"], "all key ranges, batches and file statistics",
  "Tests check a few ranges, in a part not built here.",
  ["src/sync/utils.rs", "src/sync/planner.rs"], [("key qualifiers and per-row pruning", "src/sync/utils.rs")], (), ["set of files selected"])
p("S04", "Change batches are accepted exactly if their column roles are consistent",
  "A description of a change batch is accepted only if its old and new keys correspond, a value column is present for each changed flag, and names and roles are unambiguous; batches for one table are merged only if their descriptions agree column by column. Inconsistent ones are rejected with an error and never merged, truncated or reinterpreted.",
  ["inputs"], "all column role lists up to a size and all pairs of them",
  "Tests sample several invalid lists, in a part not built here.",
  ["src/sync/schema/mod.rs"], [("schema validation and compatibility", "src/sync/schema/mod.rs")], (), ["accept or reject"])
p("G01", "Cleaning up dropped tables deletes only their files and forgets them last",
  "Physical cleanup removes every file of each table awaiting deletion and no file of any other table, forgets a table only after all its files are gone, and on failure keeps it recorded with its status advanced so that it is retried later and finally left for manual action. It never touches tables marked as failed or tables of databases other than the one asked for.",
  ["histories", "fault_sequences"], "all sets of pending tables, object layouts, storage failures and repeated runs",
  "No test drives cleanup through storage failures.",
  ["src/utils.rs", "src/object_store/wrapped.rs", "src/catalog/repository.rs"], [("cleanup loop", "src/utils.rs"), ("prefix deletion", "src/object_store/wrapped.rs")], (), ["objects left in the store", "pending-deletion records"])
p("W04", "A user-defined function exists for queries from its creation to its removal",
  "A function can be called in queries of the database it was created in (and no other), by the name in its definition under the usual rules for quoted and unquoted names, from the moment CREATE FUNCTION succeeds, as it was last defined, until DROP FUNCTION removes it; on every server that shares the catalog, and after restarts. While it exists it hides a built-in function of the same name, which is back afterwards. A failing CREATE or DROP (existing or missing name, code that does not load or does not have the declared type) changes nothing.",
  ["histories", "inputs"], "all sequences of creations, replacements and removals over a few names, spellings, definitions, databases and servers, with restarts in between",
  "One replacement is tested, in a part not built here.",
  ["src/context/mod.rs", "src/context/logical.rs", "src/context/physical.rs", "src/catalog/metastore.rs"], [("functions of the session reloaded before each statement", "src/context/mod.rs"), ("names of functions in statements", "src/context/logical.rs")], (), ["results of calls", "success or failure of statements"])
p("X01", "Flight queries see the tables they name and no other request's",
  "A query sent over Arrow Flight is answered from the tables of the server (in the schema named by its search path), or from the catalog sent along with it and nothing else, whatever other requests are served at the same time. Its ticket yields the rows there were when it was issued, whatever is written later, exactly once; forged and used tickets are refused. A request that cannot be answered (no such table, store or schema, not one statement, unknown or unsupported command, missing catalog) is refused with an error and neither changes anything nor disturbs other requests.",
  ["histories", "schedules", "inputs"], "all sequences of requests, redemptions and writes over a few tables, and all pairs of overlapping requests",
  "Tests send single well-formed requests one at a time, in a part not built here.",
  ["src/frontend/flight/sql.rs", "src/frontend/flight/handler.rs", "src/context/mod.rs", "src/catalog/metastore.rs"], [("tickets and streams", "src/frontend/flight/handler.rs"), ("decoding of commands", "src/frontend/flight/sql.rs"), ("session scoped to a metastore", "src/context/mod.rs")], (), ["rows or error of each request"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
