#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

REPO = ["src/repository/default.rs", "src/repository/sqlite.rs", "src/repository/interface.rs", "migrations/sqlite"]

# ------------------------------------------------------------------ catalog
prop("C01", "Concurrent catalog operations are linearizable",
  "Every create, rename, move, drop, lookup and listing of databases, schemas and tables in the SQLite-backed catalog, issued concurrently by any number of clients, has a result that some sequential order of the same operations (respecting real time) would give. In particular a name is never bound to two live objects in the same parent, an operation on a missing object is an error, a duplicate name is reported as a uniqueness violation and a missing parent as a reference violation, names are matched exactly, and dropping a parent removes everything below it and nothing else.",
  ["schedules", "histories", "inputs"], "all histories of catalog calls by concurrent clients, all object names",
  "The tests drive one sequential script with fixed names on an in-memory database; concurrent clients, hostile names and longer histories are never tried.",
  REPO, [("unique constraints and cascading foreign keys", "migrations/sqlite/*.up.sql"), ("transactions with RETURNING", "src/repository/default.rs"), ("error classification", "src/repository/sqlite.rs interpret_error")],
  ["results of each catalog call at the client boundary"])
prop("C02", "Catalog changes are all-or-nothing and survive crashes and restarts",
  "A catalog change (database, schema, table, table version, function) that returned success is still there, complete, after the process is killed at any moment and the catalog file is reopened; one that returned an error has left no trace. A change in flight at the kill is found either entirely applied - a table or version with all of its columns - or not at all, and no reader ever observes anything in between.",
  ["crash_points", "inputs", "schedules"], "all kill points of all histories of catalog changes; all inputs that make a change fail half way",
  "No test restarts or kills anything, none makes a statement inside a change fail, and none reads while another client writes.",
  REPO, [("database transactions", "src/repository/default.rs"), ("WAL journal", "src/repository/sqlite.rs try_new")],
  ["catalog contents after reopening, compared with the log of acknowledged calls"])
prop("C03", "Table versions form an append-only history with a well-defined latest",
  "Recording a new version of a table appends one entry carrying exactly the version number given and the same columns as the table had, makes it the table's latest, and changes nothing else; version identifiers grow in the order in which versions of a table were recorded. Pruning old versions of one table keeps precisely its latest version, with its columns, returns the number removed, and leaves every other table alone, and listing versions returns exactly the recorded ones for the requested names in the requested database.",
  ["histories", "inputs", "schedules"], "all sequences of create / new version / prune / rename / drop over several tables, incl. concurrent writers",
  "Tests record a single new version of a single table; pruning and filters are covered by one case each.",
  REPO, [("create_new_version / delete_old_versions / get_all_versions", "src/repository/default.rs"), ("latest version query", "src/repository/sqlite.rs QUERIES")],
  ["version listing and column listing after each call"])
prop("C04", "Stored column definitions round-trip exactly",
  "The columns listed for a table are exactly the fields it was created with - every Arrow type, nullability, nesting and metadata, for any column name and any number of columns - and they stay so through renames, new versions, restarts and catalog upgrades.",
  ["inputs", "histories"], "all Arrow schemas, including nested and wide ones, and all column names",
  "The tests create one table with two plain columns (and an empty one).",
  REPO, [("field serialization into table_column", "src/repository/default.rs create_table"), ("old-format upgrade", "src/repository/default.rs setup")],
  ["list_collections"])
prop("C05", "The function catalogue does exactly what CREATE/DROP FUNCTION says",
  "Creating a function stores precisely the given definition; creating an existing name fails and changes nothing unless replacement was asked for, in which case exactly that definition is replaced; dropping a list of names removes all of those functions in that database and no others, or fails and removes nothing. Listing returns exactly the live functions of a database with definitions equal to the ones stored.",
  ["inputs", "histories"], "all sequences of create/replace/drop/list over several databases, names and definitions, with drop lists of any length",
  "Tests drop a single function by name; lists, several databases and failing members of a list are not tried.",
  REPO + ["src/wasm_udf/data_types.rs"], [("create_function / drop_function / get_all_functions_in_database", "src/repository/default.rs"), ("uniqueness per database", "migrations/sqlite")],
  ["function listing after each call"])
prop("C06", "A catalog opened read-only is never modified",
  "A catalog opened in read-only mode serves the same contents as the writable one does, rejects every mutating call with an error, and leaves the catalog's contents byte-for-byte as they were, even while a writer in another process keeps changing them.",
  ["inputs", "histories", "configurations"], "all catalog calls in read-only mode, all journal modes, with or without a concurrent writer",
  "The one test opens a read-only handle and performs a single lookup.",
  REPO, [("read_only connect option, no migrations", "src/repository/sqlite.rs try_new_read_only")],
  ["results of all calls and file contents before/after"])
prop("C07", "Catalog upgrades preserve every table, column and function",
  "Opening a catalog written by any earlier schema migration upgrades it without losing or altering databases, schemas, table names, functions or column definitions; opening an up-to-date catalog any number of times changes nothing.",
  ["histories", "inputs"], "all catalog contents at every migration level",
  "Every test starts from an empty, fully migrated database.",
  REPO, [("migrations", "migrations/sqlite"), ("old field format upgrade", "src/repository/default.rs setup")],
  ["catalog contents after opening"])

prop("C08", "The register of dropped tables is exact",
  "The catalog's register of dropped tables awaiting deletion lists exactly the entries it holds - for all databases or for the one asked for, whose name is matched exactly - with names, identifier, deletion status and time as recorded. Updating or removing an entry affects that entry alone, is an error when there is none with that identifier or the change fails, and of several concurrent removals one succeeds; no other catalog operation and no restart changes the register.",
  ["histories", "schedules", "inputs"], "all histories of the register, including failing and concurrent changes",
  "The only test of the register updates one entry in an otherwise empty catalog.",
  REPO, [("get_dropped_tables, update_dropped_table, delete_dropped_table", "src/repository/default.rs")],
  ["listings of the register", "results of operations"])

# ------------------------------------------------------------------ SQL front end
PARS = ["src/datafusion/parser.rs"]
prop("C10", "SQL parsing is total: any text yields statements or an error",
  "For any input text the SQL parser returns either a list of statements or an error: it never panics, overflows the stack, or runs without end. Statements that are not Seafowl extensions parse to the same result as the underlying query engine's own parser gives, and a text of several statements separated by semicolons yields exactly the concatenation of their separate parses.",
  ["inputs"], "all texts, including mutated, truncated, deeply nested and non-ASCII ones",
  "Tests parse a dozen fixed statements.",
  PARS, [("DFParser::parse_sql, recursion limit", "src/datafusion/parser.rs")], ["parse result"])
prop("C11", "Seafowl's own statements parse to exactly what was written",
  "CONVERT, VACUUM, TRUNCATE, COPY, CREATE FUNCTION, DROP FUNCTION, CREATE EXTERNAL TABLE and table function statements are parsed with every clause - names with their quoting, locations, formats, options, columns, order, partitioning, IF NOT EXISTS, OR REPLACE - landing unchanged in the parsed statement, however the text is spaced, commented or cased. A malformed, duplicated, truncated or over-long statement is an error, never a different statement.",
  ["inputs"], "all statements of the extension grammar and all single-token corruptions of them",
  "Tests compare a few literal statements; combinations of clauses, quoting and error positions are unexplored.",
  PARS, [("parse_* functions", "src/datafusion/parser.rs")], ["parsed statement"])
prop("C12", "SQL column types map to the type they name or are rejected",
  "Each SQL column type in a DDL statement becomes the Arrow type of the same width, signedness, precision, scale and unit, with NOT NULL and column name (case, quoting) respected; a type that has no faithful counterpart, or parameters outside its range, is rejected with an error instead of being changed to a different type.",
  ["inputs"], "all SQL data types with all parameters, all column options",
  "The mapping has no direct tests; end-to-end ones use a handful of types.",
  ["src/datafusion/utils.rs"], [("build_schema, convert_simple_data_type, make_decimal_type", "src/datafusion/utils.rs")], ["resulting schema"])
prop("C13", "Time-travel table references are rewritten to exactly their version",
  "In any query, each table reference written as a call with one string literal is replaced by a reference unique to that table and that version string, and the set of collected versions is exactly the set written; two references get the same replacement if and only if they name the same table (as the query engine resolves names) at the same version. References without a version, real table functions with other arguments, and all other parts of the query are left as they were.",
  ["inputs", "programs"], "all queries with any mix of versioned and unversioned references, aliases, subqueries, CTEs, joins and quoting",
  "Tests rewrite one fixed query and two fixed names.",
  ["src/version.rs"], [("TableVersionProcessor visitor", "src/version.rs")], ["rewritten statement and collected versions"])
prop("C14", "Time-travel reads resolve a version string to the right snapshot",
  "A version given as a timestamp is read with its own UTC offset or as UTC, to full precision, in every supported format (RFC 3339, RFC 2822, and 'YYYY-MM-DD HH:MM:SS' with or without an offset), and a reference at a given version or instant sees exactly the rows the table had after the last change at or before it; a time before the table existed never shows anything later than the table's first version, and unparseable text is an error.",
  ["inputs", "histories"], "all histories of table changes and all version strings in supported and unsupported formats",
  "Tests use three fixed timestamps on one table, and depend on sleeping between writes.",
  ["src/version.rs", "src/context/logical.rs", "src/context/delta.rs"], [("version_to_datetime", "src/version.rs"), ("versioned table loading", "src/context/logical.rs")], ["rows returned; resolved instant"])
prop("C15", "Plan nodes for Seafowl statements keep their identity through planning",
  "The logical plan nodes carrying Seafowl statements compare equal and hash alike exactly when they describe the same operation, expose the inputs and expressions they hold, survive being rebuilt from those parts with no field lost, and describe themselves in plans by the kind of operation and the names it acts on (a VACUUM by its kind of target).",
  ["inputs"], "all extension nodes with all combinations of field values",
  "The nodes are never compared, rebuilt or printed by tests beyond a few EXPLAIN strings.",
  ["src/nodes.rs"], [("UserDefinedLogicalNode implementation", "src/nodes.rs")], ["equality, hash, inputs, explain text"])

# ------------------------------------------------------------------ WASM
W = ["src/wasm_udf/wasm.rs", "src/wasm_udf/data_types.rs"]
prop("C20", "A WASM function returns for every row the value its module computes",
  "For every supported input and output type and both calling conventions, calling a registered WebAssembly function on any column values - including nulls, extremes, empty and large batches, constants mixed with columns - delivers each row's values unchanged to the module and returns its result unchanged in that row, with the declared type and the same number of rows. The result of a row does not depend on other rows, on batch boundaries, or on other queries running at the same time.",
  ["inputs", "schedules", "programs"], "all type signatures, all values, all batchings, concurrent invocations",
  "Tests call a few fixed functions with a few small constants, one query at a time.",
  W, [("argument and result codecs", "src/wasm_udf/wasm.rs"), ("fresh instance per call", "src/wasm_udf/wasm.rs")], ["values returned per row, echo modules"])
prop("C21", "No WASM module can crash the server or escape its sandbox",
  "Whatever bytes a user registers as a WebAssembly function - malformed modules, wrong or missing exports, wrong signatures, traps, stack exhaustion, out-of-range pointers and lengths, garbage results - creating it or calling it ends in a value or an error, never in a panic, abort or a read or write outside the module's own memory, and other functions keep working. The module gets no access to the host's files, environment, arguments or network.",
  ["inputs", "programs", "fault_sequences"], "all modules and all adversarial behaviours of their exports",
  "Tests cover five malformed cases; hostile pointers, lengths and result types are not tried.",
  W, [("wasmtime sandbox and WASI context", "src/wasm_udf/wasm.rs"), ("checks on exports and results", "src/wasm_udf/wasm.rs")], ["process survival, error results, guest memory canaries"])
prop("C22", "Function definitions are validated and typed as declared",
  "A function is registered only if its definition names a supported language, types and volatility and its module exports what the language needs, and calls are then accepted only with arguments of the declared types and count (coerced as for built-in functions); the definition's stored text form denotes the same definition when read back. An invalid definition is an error that leaves the set of callable functions as it was.",
  ["inputs"], "all definitions, valid and invalid, in every supported spelling",
  "Tests check two error cases and one round-trip.",
  W, [("CreateFunctionDetails parsing", "src/wasm_udf/data_types.rs"), ("create_udf_from_wasm", "src/wasm_udf/wasm.rs")], ["registration result, call result"])

# ------------------------------------------------------------------ remote tables
prop("C25", "Filters pushed down to remote tables keep their meaning",
  "For every filter expression that is declared pushable to a remote database, the SQL text sent to it is well-formed in that database's dialect and selects exactly the rows for which the original expression is true - for all values including nulls, negative numbers, quotes and backslashes in strings, and every nesting of operators. Expressions that cannot be rendered faithfully are not pushed down, while those built of comparisons, arithmetic, AND, OR, NOT, NULL tests and lists over columns and plain literals are.",
  ["inputs", "programs"], "all filter expressions over all values, for each supported dialect",
  "Tests compare a handful of expressions with expected SQL text and never run it.",
  ["datafusion_remote_tables/src/filter_pushdown.rs"], [("FilterPushdownVisitor, precedence parenthesising, dialect converters", "datafusion_remote_tables/src/filter_pushdown.rs")], ["rendered SQL executed on a real engine vs the expression evaluated by the query engine"])

prop("C26", "A remote table shows the remote system's rows under its declared columns",
  "A table created with STORED AS TABLE lists the columns declared for it, or those found at the remote system, and every query over it - any columns or none, filters, limits, aggregates, joins and subqueries - returns what it would return over the remote system's current rows converted to the declared types, with names quoted as the remote system reads them. Changes made at the remote system show in the next query; nothing done through Seafowl changes it; and what can't be reached or doesn't exist is an error, never an empty or partial result.",
  ["inputs", "programs", "configurations"], "all remote tables, declared schemas and queries, for each supported system",
  "One test runs two queries against one table per system.",
  ["datafusion_remote_tables/src/provider.rs", "datafusion_remote_tables/src/factory.rs", "src/config/context.rs"], [("RemoteTable::new, scan, supports_filters_pushdown", "datafusion_remote_tables/src/provider.rs"), ("RemoteTableFactory", "datafusion_remote_tables/src/factory.rs")], ["result rows, names and types", "information_schema.columns", "SQL sent", "remote file"])

# ------------------------------------------------------------------ object stores
prop("C30", "The object cache returns the same bytes as the store behind it",
  "Reads through the caching object store - whole objects, any list of ranges, any order, any number of concurrent readers, any cache size and block size, with evictions and expiries under way - return exactly the bytes of the object that the underlying store holds (an empty range, or one that starts past the end, gives no bytes or an error), as long as the object itself is not overwritten, and other operations are passed through unchanged. A failing read of the underlying store or of the cache's own files yields an error or the right bytes, never wrong or truncated data, and does not spoil later reads.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all request sequences, cache geometries, interleavings and faults",
  "Tests replay three fixed range sequences against a mock server with one reader.",
  ["src/object_store/cache.rs"], [("chunking, single-flight fetch, on-disk chunk files", "src/object_store/cache.rs")], ["bytes returned per request vs a model of the object"])
prop("C31", "The object cache stays within its bounds and avoids repeated fetches",
  "Between operations the cache's files on disk never exceed the configured capacity beyond what is still in flight, expired or evicted blocks are removed from disk, least recently used ones first, and a block that is present is served without contacting the underlying store; every fetch covers only blocks that were asked for and are missing, with neighbouring missing blocks merged into one fetch; the cache's counters agree with what happened, and its directory goes away with the store.",
  ["schedules", "histories", "configurations"], "all request histories and interleavings, all capacities and expiry times",
  "Tests check the request log of two fixed sequences.",
  ["src/object_store/cache.rs"], [("weighted eviction, eviction listener, TTL", "src/object_store/cache.rs")], ["requests reaching the underlying store; files on disk"])
prop("C32", "Reading over HTTP gives the object's true bytes, size and errors",
  "The HTTP object store requests exactly the URL it was given, returns for any range exactly those bytes of the remote object, reports its true size and existence, follows a server's lack of HEAD or range support only where the result is still right, and maps missing objects to not-found; a server that answers with a wrong status, short body or malformed headers leads to an error, never to wrong data or a crash. Writes and listings are refused.",
  ["inputs", "fault_sequences"], "all ranges, object sizes and server behaviours, well-formed or not",
  "Tests use a well-behaved mock server and one object.",
  ["src/object_store/http.rs"], [("head / head_via_get / get_range", "src/object_store/http.rs")], ["results vs the mock server's object and its request log"])
prop("C33", "Object store settings mean what was configured, from every source",
  "A local, memory, S3 or GCS store configured through settings, key-value options, a URL or environment variables ends up with precisely the bucket, prefix, endpoint, region, credentials and flags given, explicit options take precedence over the environment, and missing required ones are refused; the URL and key-value options that a configuration is announced as open a store that reaches the same objects in the same way.",
  ["configurations", "inputs"], "all combinations of settings present, absent or malformed in each source",
  "Tests check a few fixed maps.",
  ["object_store_factory/src/aws.rs", "object_store_factory/src/google.rs", "object_store_factory/src/local.rs", "object_store_factory/src/lib.rs"], [("from_hashmap / to_hashmap / build", "object_store_factory/src")], ["resulting configuration and store"])
prop("C34", "A table sees only the objects under its own prefix",
  "Every object operation issued for one table through the shared store touches only keys under that table's prefix, keys are translated the same way in both directions, and deleting a table's prefix removes all of its objects and none of any other table, whatever the other prefixes are (including ones that extend its name).",
  ["inputs", "histories"], "all sets of table prefixes, store prefixes and operation sequences, on local and in-memory stores",
  "The tests check only the URI string for a few configurations.",
  ["src/object_store/wrapped.rs", "src/object_store/factory.rs"], [("InternalObjectStore prefixing, delete_in_prefix, fast_upload", "src/object_store/wrapped.rs")], ["contents of the underlying store"])
prop("C35", "Memory accounting never loses or invents a byte",
  "The memory pool's reported metrics at any moment equal what was granted minus what was released, are monotone for the totals, count refused requests apart from granted ones, and the wrapper grants or refuses exactly as the pool it wraps, under any number of concurrent consumers; when all consumers are gone the reservation is back to zero.",
  ["schedules", "histories"], "all interleavings of grow, try_grow, shrink and free by concurrent consumers",
  "One test performs a single allocation sequence.",
  ["src/memory_pool.rs"], [("MemoryPoolMetrics", "src/memory_pool.rs")], ["metrics registry and pool state"])

# ------------------------------------------------------------------ config, auth, http
prop("C40", "Access is granted exactly as the access settings say",
  "For every combination of read and write access settings (anyone, password, off) and every form of credential presented, a request is allowed to read or write if and only if the settings allow it: no credential means anonymous, a matching password grants what it protects, anything else is rejected as unauthorized, and write permission without the ability is never granted.",
  ["inputs", "configurations"], "all settings and all authorization headers",
  "Tests check ten pairs.",
  ["src/auth.rs", "src/config/schema.rs"], [("token_to_principal, AccessPolicy, UserContext", "src/auth.rs"), ("password hash settings", "src/config/schema.rs")], ["decision per request"])
prop("C41", "Configuration text and environment produce the settings they state",
  "A configuration file with any overrides from the environment yields settings equal to those written, with the environment winning and documented defaults elsewhere; an access setting is one of any, off or the hash of a password, never a password itself; a wrong type or an invalid combination is an error at start-up, and a generated default configuration is itself valid.",
  ["configurations", "inputs"], "all configuration texts and environment overrides",
  "Tests load four fixed files.",
  ["src/config/schema.rs"], [("load_config, validate_config, env overrides", "src/config/schema.rs")], ["loaded settings"])
prop("C42", "HTTP errors carry a faithful status and never leak or crash",
  "Every failure of a request - parse error, planning error, missing permission, wrong hash, conflict with the access policy, unknown route or bad upload - is answered with the status class it deserves (4xx for what the client did wrong, 401 and 403 for missing credentials and rights, 404 for an unknown route or a non-UTF-8 path, 500 when the server could not use its own disk) and, unknown routes aside, a readable message that shows no secret of the configuration; an error met while the rows of the last statement are being sent is reported as text in the body; and after any failure, a panic in query execution included, the server keeps serving.",
  ["inputs", "fault_sequences"], "all kinds of failures at every stage of a request",
  "Tests check a handful of messages.",
  ["src/frontend/http_utils.rs", "src/frontend/http.rs"], [("ApiError, handle_rejection, catch_unwind", "src/frontend")], ["HTTP status and body"])
prop("C43", "Read-only HTTP callers cannot change any state",
  "A caller who may read but not write - by policy or by using the cached GET endpoint - can submit any SQL text, and no table, schema, function, file or catalog entry is created, changed or dropped by it; such a request is refused unless it only reads.",
  ["inputs", "configurations"], "all statements, including nested, multi-statement, EXPLAIN and SELECT ... INTO forms, for all access settings",
  "Tests try a plain INSERT/CREATE only.",
  ["src/frontend/http.rs", "src/auth.rs"], [("is_statement_read_only / is_read_only", "src/frontend/http.rs"), ("can_perform_action", "src/auth.rs")], ["catalog and object store contents before and after"])
prop("C44", "A cached query result is only revalidated while it is still right",
  "The ETag of a cached GET query changes whenever the result could: after any change to any table the query reads, however deeply it is referenced, a conditional request with the old tag gets a fresh 200 answer with the current rows; a 304 is given only if every table read is unchanged. The GET endpoint runs exactly the query whose hash is in the URL and refuses a mismatch.",
  ["histories", "inputs"], "all queries (joins, subqueries, CTEs, set operations, time travel) and all interleaved table changes",
  "Tests check one table with one INSERT.",
  ["src/frontend/http.rs"], [("plan_to_etag", "src/frontend/http.rs"), ("query hash check", "src/frontend/http.rs cached_read_query")], ["HTTP status, ETag and body"])
prop("C45", "HTTP results and uploads carry exactly the rows",
  "Query results returned over HTTP contain exactly the rows and columns of the last statement, in order, with types described in the header; an uploaded CSV or Parquet file adds exactly its rows to the target table - created if absent, appended otherwise - or fails leaving the table as it was.",
  ["inputs", "histories"], "all result sets and types; all uploaded files, well-formed or not",
  "Tests upload a few small files and read a few literals.",
  ["src/frontend/http.rs"], [("JSON lines encoder, content type schema", "src/frontend/http.rs"), ("upload", "src/frontend/http.rs")], ["HTTP body and header; table contents"])

# ------------------------------------------------------------------ tables
prop("C50", "DML and DDL on tables behave like SQL on a model table",
  "After any sequence of CREATE TABLE, CREATE TABLE AS, INSERT, UPDATE, DELETE, TRUNCATE, RENAME, DROP and SELECT statements, each table contains exactly the rows SQL semantics prescribe (with NULL predicates neither updating nor deleting), and a failing statement leaves every table as it was. File boundaries, the number of files and target partition size never affect contents.",
  ["histories", "inputs", "configurations"], "all statement sequences, data including nulls, partition sizes",
  "Tests run short scripts with fixed expectations.",
  ["src/context/physical.rs", "src/context/delta.rs", "src/context/logical.rs"], [("DML planning and file rewriting", "src/context/physical.rs"), ("plan_to_delta_adds", "src/context/delta.rs")], ["SELECT results vs the model"])
prop("C51", "Writing a result splits it into files without losing or changing rows",
  "Materialising any query result as table files writes every row exactly once, each file holding no more than the configured number of rows, with recorded sizes, row counts and min/max/null statistics that are true of the file; an error part-way leaves no table entry behind.",
  ["inputs", "configurations", "fault_sequences"], "all batch sizes, row counts, schemas, partition sizes and upload failures",
  "Tests check two fixed inputs.",
  ["src/context/delta.rs", "src/object_store/utils.rs"], [("plan_to_delta_adds", "src/context/delta.rs"), ("fast_upload", "src/object_store/utils.rs")], ["written files and add actions"])
prop("C52", "Concurrent statements on a table are isolated and never lose updates",
  "When several clients run statements on the same tables at once, the final contents and every result are those of some order of the statements that succeeded, a statement that reports failure has no effect, and a reader always sees one committed version of each table.",
  ["schedules", "histories"], "all interleavings of concurrent statements",
  "Almost all tests are single-client.",
  ["src/context/physical.rs", "src/context/delta.rs", "src/catalog"], [("optimistic log commits", "src/context/delta.rs"), ("catalog transactions", "src/repository")], ["recorded history of statements and results"])
prop("C53", "Dropping and vacuuming never removes live data",
  "Vacuuming or garbage collection removes only files no longer referenced by the current version of any table, never a row visible to a query of a current table; dropping a table, schema or database removes exactly that object's data and leaves all others readable, and clean-up that fails part-way is retried without harm.",
  ["histories", "fault_sequences"], "all histories of writes, drops, vacuums and clean-ups with storage failures",
  "Tests drop one table and vacuum one fixed history.",
  ["src/context/physical.rs", "src/utils.rs", "src/object_store/wrapped.rs"], [("VACUUM planning", "src/context/physical.rs"), ("gc_databases", "src/utils.rs")], ["object store contents and SELECT results"])
prop("C54", "The catalog listings reflect exactly the live objects",
  "Information schema and system tables list precisely the databases, schemas, tables, columns, functions and versions that exist, with their true types and versions, at every point of any history, and a name resolves in queries if and only if it is listed.",
  ["histories", "inputs"], "all histories of DDL and DML",
  "Tests compare a few fixed listings.",
  ["src/system_tables.rs", "src/catalog/metastore.rs", "src/catalog/repository.rs", "src/provider.rs"], [("system schema provider", "src/system_tables.rs"), ("metastore build", "src/catalog/metastore.rs")], ["information_schema and system queries vs the model"])
prop("C55", "External catalogs served over the network look the same as local ones",
  "Schemas and tables described by a remote metadata service are visible with exactly the names, locations and store options it reports, a read-only remote catalog refuses every change, and conversion of the service's messages never drops or mixes up entries or crashes on unexpected ones.",
  ["inputs", "fault_sequences"], "all service responses, including empty, duplicated and erroneous ones",
  "Tests run one fixed mock response.",
  ["src/catalog/external.rs", "src/catalog/metastore.rs", "clade/src/lib.rs"], [("ExternalStore, build_database", "src/catalog")], ["visible tables and errors"])

# ------------------------------------------------------------------ sync
prop("C56", "Acknowledged work survives a kill at any point, and nothing is left half done",
  "Whenever the process is killed, at whatever point of whatever statement, it comes up again on what is on the disk: every statement that was acknowledged is in effect in full, one that was under way is in effect in full or not at all (tables, their names, schemas, columns and rows alike), a statement reported as failed is not in effect, every listed table can be read, and the clean-up at start-up and further statements work on what is left without changing anything else.",
  ["crash_points", "histories", "schedules"], "all points at which the process can end, and all histories before them",
  "No test ends the process; the tests of the clean-up use states written by hand.",
  ["src/context/physical.rs", "src/context/delta.rs", "src/catalog", "src/repository", "src/utils.rs"], [("order of the steps of each statement", "src/context/physical.rs"), ("clean-up at start", "src/main.rs")], ["files before and after each store operation", "acknowledgements seen by clients"])
prop("C57", "The command line runs exactly what is typed and shows exactly what comes of it",
  "In an interactive session every input that ends with a semicolon is executed once, statement after statement in order, with each result printed in full and failures reported without ending the session (what comes before a failing statement counts, what comes after it is not run); an input that cannot be parsed does nothing; backslash commands, and only those, list and describe tables, show the help or end the session; unfinished input is not run; a one-off command runs its statements in order, writes their rows as JSON lines, and a failure shows in its status.",
  ["inputs", "histories"], "all sessions and one-off commands",
  "One test runs a one-off command; the CLI has none.",
  ["src/cli", "src/utils.rs", "src/main.rs"], [("command_loop, exec_and_print", "src/cli/mod.rs"), ("Command::from_str", "src/cli/commands.rs"), ("validate_input", "src/cli/helper.rs"), ("run_one_off_command", "src/utils.rs")], ["standard output, errors and exit status of the process", "tables afterwards"])
prop("C60", "Squashing replicated changes equals applying them one by one",
  "Combining a sequence of replicated row changes (inserts, updates, deletes, primary-key changes, partial column updates) into one set keeps at most one change per key and, applied to any starting table, gives the same table as applying the changes one after another in order.",
  ["inputs", "histories"], "all change sequences over all key and value columns",
  "One randomized test with plain value columns; changed-flags and several of them are fixed cases.",
  ["src/sync/utils.rs", "src/sync/schema"], [("squash_batches", "src/sync/utils.rs"), ("schema merging", "src/sync/schema")], ["squashed batch vs a replay model"])
prop("C61", "Applying replicated changes yields the replayed table",
  "After any sequence of sync batches - with differing column subsets, key changes, deletes, many files and data pruning - the target table equals the one obtained by replaying every change in order on a plain map, and no row outside the changes is altered, duplicated or lost.",
  ["inputs", "histories", "configurations"], "all batch sequences, schemas, file layouts and flush thresholds",
  "Tests apply a few fixed batches; pruning is tested on its own.",
  ["src/sync/planner.rs", "src/sync/schema", "src/sync/utils.rs"], [("plan_delta_sync", "src/sync/planner.rs"), ("get_prune_map", "src/sync/utils.rs")], ["table contents vs the replay model"])
prop("C62", "Sync acknowledgements are only given for durable changes, in order",
  "For every origin the reported durable sequence number never exceeds that of changes whose effects are in the table, never goes back, and covers a transaction only when all of its parts are stored; the position recorded with a commit in the table's log names a transaction the table has in full and tells when it has a part of another; after a crash and restart, resending from the reported durable number yields each change applied exactly once.",
  ["crash_points", "histories", "schedules"], "all interleavings of origins, tables, flushes, failures and restarts",
  "Tests check fixed bookkeeping sequences without failures.",
  ["src/sync/writer.rs", "src/frontend/flight"], [("SeafowlDataSyncWriter bookkeeping", "src/sync/writer.rs")], ["returned sequence numbers vs the table's contents and log"])
prop("C63", "Flight endpoints return the query's exact result and keep serving",
  "A query submitted over Arrow Flight streams exactly its rows with its schema, once per ticket, to the client that asked; malformed tickets, commands or sync messages are answered with an error status and disturb no other client.",
  ["inputs", "schedules"], "all queries, tickets and message contents, concurrent clients",
  "Tests run a couple of fixed queries.",
  ["src/frontend/flight/handler.rs", "src/frontend/flight/sql.rs"], [("query stream registry", "src/frontend/flight/handler.rs")], ["Flight responses"])
prop("C64", "Metrics and gauges agree with what the server actually did",
  "After any history of requests, sync messages and flushes, the exported metrics tell what happened: every HTTP and gRPC request is counted once, with the status it was answered with; rows, bytes, syncs and sequences received, squashed, in memory and flushed add up; gauges return to zero when nothing is pending; calls to the object store and the bytes asked of and behind the cache are counted as made; and reserved query memory returns to zero.",
  ["histories", "inputs"], "all request outcomes and all interleavings of sync messages and flushes",
  "No test reads a metric after more than one action.",
  ["src/sync/metrics.rs", "src/sync/writer.rs", "src/frontend/http.rs", "src/frontend/flight/metrics.rs", "src/memory_pool.rs", "src/object_store/cache.rs"], [("sync metrics", "src/sync/metrics.rs"), ("request metrics", "src/frontend/http.rs")], ["Prometheus scrape"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
