"""Per property: how it is decided (monitor, oracle, bounds, cost, why tests cannot reach it)"""
DESIGN = {
"C01": """Random scripts of catalog operations run by 1-4 clients against one SQLite catalogue file (each journal mode, one or several handles, single- and multi-threaded runtimes). Every call is recorded at the client boundary with invocation and response stamps from one counter; a Wing-Gong search over a small sequential model (databases, collections, tables, versions, functions, dropped tables) decides whether some order explains all results, and the final contents are read back as one more operation. Calls the database turned away as busy are left out with their effect open. *Bounds*: histories of at most ~40 operations, names from a hostile pool of 8. *Beyond tests*: tests run one call at a time.""",
"C02": """The real repository runs in a child process under a storage event hook (SQLite's own trace and VFS-visible calls, via triggers and a progress handler); the child is killed, or a statement made to fail, at a chosen event of a chosen kind. The parent reopens the file and compares with the journal of acknowledged calls: everything acknowledged is there, an errored call has left nothing, the one in flight is entirely there or not at all. A second connection digests the contents at every event, so that a half-made change is seen while it exists. *Bounds*: process kill, not power loss.""",
"C03": """Scripts of create / new version / prune / rename / drop / list against a reference model of the append-only history, sequentially (exact comparison) and concurrently (linearizability). Version numbers repeat, go backwards and are extreme. *Bound*: the wall clock does not step backwards during a run.""",
"C04": """Arrow fields of every type with nesting and metadata, under adversarial names (duplicates, empty, Unicode, quotes, JSON fragments), many columns; what the catalogue lists is compared field for field with what was stored, straight away and after each kind of later change and a reopening.""",
"C05": """Scripts of function changes over several databases against a reference model; concurrent histories checked for linearizability.""",
"C06": """On a read-only handle every mutating call must be an error and every reading call equal to the writable handle's; content digests (by dump) and file bytes before and after; beside a live writer every successful listing must be one of the states the writer went through (a reader turned away by SQLite gives no verdict).""",
"C07": """A catalogue is built at each migration level with random contents expressible there (including the old JSON field format) and opened by the current code, three times; contents compared before and after each.""",
"C10": """Texts generated from a grammar of the engine's SQL and Seafowl's own, plus mutations at token and byte level, judged against the engine's own parser (same result for anything that is no extension) and against the parser itself on the parts (list = concatenation). Deep nesting (to 20000) of 30 constructs runs in child processes: abort, signal or no end is a violation. Defects that sit in the sqlparser library are known findings, keyed by construct.""",
"C11": """Each statement is generated as tokens together with the syntax tree that it must give, then spelled with random case, spacing and comments. Single-token corruptions (drop, duplicate, swap, insert) are judged by an independent recogniser of the extension grammar.""",
"C12": """An oracle table of SQL types to Arrow types (written from the documentation), boundary and out-of-range parameters, NOT NULL, quoting; compared with build_schema's answer or refusal.""",
"C13": """Queries generated with and without versions, in every position a table reference can take; an independent rewriter, resolver and collector are compared with the visitor. Version strings are drawn together with near neighbours of theirs (blanks, case, one character more or less).""",
"C14": """Version texts in and near every supported format are turned into instants by hand-written calendar arithmetic and compared with version_to_datetime. On a whole server, histories of changes are logged with the clock before and after each of them and the table's contents from a model; every text for an instant that falls clear of the changes (15 ms either side) must read exactly the contents logged before it, and one that falls within a change either side of it. Reads happen beside other tables, the same table as it is now and at other times, in sessions of any schema, with names quoted or not, after renames and re-creations, and from concurrent clients while others list the tables (a version never shows up there). A time before the table existed may read as its first version, as delta-rs does, or be an error.""",
"C15": """Pairs of generated plan nodes: equality and hash against structural equality of the generator's description, rebuild through with_exprs_and_inputs/from_template, and the text in plans.""",
"C20": """WASM modules are assembled by the check for every signature: they return an argument, or a checksum of all arguments, so that the value delivered and the one returned are both observed per row. Guest memory has canaries around every buffer. Batches from empty to thousands of rows, constants mixed in, many callers at once.""",
"C21": """Families of hostile modules (malformed bytes, missing or wrong exports, traps, stack exhaustion, pointers and lengths at every edge, garbage results) are created and called in child processes; a panic, abort, signal, or a touch of host files/sockets is a violation, and a good function must still work afterwards. Endless loops are not monitored: the code sets no fuel or deadline, and the property bounds what is promised to ending in a value or an error.""",
"C22": """Generated function definitions, valid or with one fault; an independent validator predicts acceptance; after a refusal the set of functions is unchanged; the stored text form is read back and compared.""",
"C25": """Filters up to depth 5 over columns of every kind, all operator pairs and boundary literals; each filter that the visitor agrees to push is run as text on a real SQLite (through sqlx), on hand-written evaluators of the PostgreSQL and MySQL dialects (themselves compared with SQLite on the common part), and as the original expression by DataFusion on the same rows. The row sets must be equal.""",
"C30": """The real CachingObjectStore runs over an in-memory store behind a recording wrapper that can delay and fail its calls. Chunk sizes 1 B-1 MiB, objects around multiples of the chunk, capacities from nothing to everything, short expiry, a sibling store on the same cache; between reads the cache's files are removed at random. Every answer is compared byte for byte with the object. Sequences are single-client; concurrent scenarios have 8 clients on 2 objects with evictions under way. All other operations are run on a plain store beside and compared. *Beyond tests*: they replay three ranges with one reader.""",
"C31": """The wrapper's request log gives what was really fetched; the check keeps the set of chunks that must be present (everything fetched, with room for all) and requires that fetches are exactly the runs of missing chunks of the request. With small capacities: bytes on disk at rest, after evictions; recency: a chunk read just before an insertion that forces an eviction survives it; expiry: files disappear after the time-to-live and reads fetch anew; counters in a real Prometheus recorder against the log; directory gone after the store is dropped.""",
"C35": """Random histories of grow / try_grow / shrink / resize / free by 1-8 threads on the real MemoryPoolMetrics over greedy, fair and unbounded pools with a live Prometheus recorder; at quiet points the gauge, totals per consumer and result, and the wrapped pool's own total must agree with the accounts that the clients keep; a bare pool driven by the same single-threaded script must grant and refuse the same calls.""",
"C40": """An independent decision table (public / off / password for reads and for writes, against no, right, wrong, near-miss and malformed credentials) is compared with what the real access policy decides and with what the real warp routes do: status, body, and a digest of all files and catalogue rows around every refused request. Reads, writes, mixes of both in one request, uploads and cached GETs are all sent.""",
"C43": """Some 55 kinds of statements that write (every DDL/DML/VACUUM/COPY/CONVERT/function form, SELECT INTO in all positions) wrapped in comments, multi-statements, EXPLAIN [ANALYZE] and parentheses, are sent by readers through POST (by policy, by token, to another database) and through GET (hash, raw, body). Everything stored - files, catalogue rows, listings, session settings, functions, contents - is digested before and after. The same text is then sent by a writer: if that changes anything, the reader must have been refused with a 4xx.""",
"C44": """Queries are generated with joins, IN/EXISTS/scalar subqueries, CTEs, set operations, windows, aggregates, quoted and time-travelled tables; between conditional GETs random tables are inserted into, deleted from, updated, truncated, dropped and re-created, swapped by renames, vacuumed. A 304 is right only if the rows that POST gives now and the contents of every table read are those of the tag's time; a 200 must have POST's rows; with nothing changed at all it must be 304. System listings and external files are queried and changed as well. Hashes in the URL are mutated: only the query's own SHA-256 (with any extension) may be answered.""",
"C42": """Requests that must fail, drawn over every stage (parsing, planning, rights, hash, upload, routing, execution, a UDF that panics), are sent through the real warp filters of a server over real contexts. The oracle is a table of what each deserves: the status, that a message is there and names what is wrong, that neither the passwords nor their hashes nor the object-store keys show in any answer, and that a plain query right after is answered. Errors while rows are sent are text in the body (frozen by a test of the repository).""",
"C45": """Literals of every column type are selected through POST, GET with header, and GET with body, and each answer's JSON rows are decoded by the type in the content-type header and compared with the values sent, in order, with the column names (hostile ones included). Uploads of random CSV and Parquet files (quoting, nulls, headers or none, explicit schemas, mixed-case tables and schemas, the same name in several schemas) are compared with a model of every table; files are cut, damaged, made to disagree with the table or their HTTP body torn, and then the upload must fail with the table unchanged, or - for damage that still reads as a file - leave a readable one.""",
"C50": """A reference model evaluates expressions with three-valued logic and applies each statement to its tables. Histories of CREATE, CTAS, INSERT (values, select, column lists), UPDATE, DELETE, TRUNCATE, RENAME, DROP, VACUUM and statements that must fail are run against a server on disk or in memory, with target partition sizes down to one row; after each statement every table's rows, the listing, and filtered reads are compared with the model, whatever the statement answered. Larger sorted tables are changed by range, since files are then read in parts. Tables with NOT NULL columns get rows that do not fit. On a read-only SQLite replica of the catalogue every statement that changes a table must fail and leave its rows, on the replica and the original, as they were (the catalogue is assumed not to fail exactly between a commit of data and its record).""",
"C41": """Random configuration texts over all 40 settings of every section, with random environment overrides (present, absent, replacing the type of store), are loaded by the real loader; the result is compared field by field with a model that merges file and environment and fills in the documented defaults. One setting in four runs gets a value of the wrong type or range, in the file or in the environment, and must be refused; so must the combinations documented as invalid and the values other parts cannot work with. Then the real server binary is started in a scratch directory with the settings in a file, in the environment, in both (environment wins) or generated by itself, and its answers to reads and writes with and without passwords show which settings are in force; invalid ones must end it before it listens. The tests load four fixed files and never start the binary. Upload limits from 0 to 2^64-1 MB are set on the real routes and judged by uploads just below and above them (found: an overflow from 2^44 MB on).""",
"C51": """Random results (types, NULLs, NaN, empty batches, batch sizes around the partition size) are written by plan_to_delta_adds, CREATE TABLE AS, INSERT and COPY-like paths through a spying store; each written Parquet file is decoded and compared: every row exactly once and in order, no more rows than max_partition_size, size, row counts and min/max/null statistics of the add action true of the decoded rows. Failures of individual uploads (put, multipart parts, completion) are injected and must end in an error with no table entry in the catalogue and no log commit.""",
"C53": """Histories of CREATE, INSERT, UPDATE, DELETE, RENAME, DROP TABLE, DROP SCHEMA, VACUUM TABLE, VACUUM DATABASE and the start-up clean-up run over two databases with overlapping table names, on a store where every operation goes through a spy that can fail lists, deletes (all or the second one), puts and copies, and on a catalogue where triggers can fail every change. After each step every live table is read in full and compared with the model, its objects must all still be there (but for what a vacuum of that very table removes, which must leave every file of its current version), a dropped table's objects must be gone, and the entries of tables dropped by earlier releases must be removed with their objects, or be kept for a retry (PENDING, RETRY, FAILED) when the clean-up fails.""",
"C34": """Random operation sequences run through the real log-store factory and InternalObjectStore over a shared store wrapped in a recorder (the seafowl_verif hook only hands the recorder in). After each operation the monitor compares the result and the table's listing with a per-table map model, the keys that reached the shared store with the table's prefix, and the contents of the whole shared store with the union of the models; delete_in_prefix and fast_upload are included, prefixes extend one another's names. A second part opens tables from file:// and memory:// URLs with escaped characters and compares the directory on disk with the model.""",
"C32": """A raw TCP server owned by the check serves a known object and misbehaves in one chosen way (status, early close, shorter or shifted ranges, missing or malformed headers, chunked replies, garbage). Every operation of the real HttpObjectStore, and external CSV/Parquet tables of a whole Seafowl, run against it: without a fault the answer must be the object's true bytes, size, range and validators; with one it must be an error or still the truth, never a panic; a missing object must be NotFound; writes and listings must be refused without a request being sent; every request's target must be the URL given. A full-object reply that is consistently shorter is undetectable for any client and is not generated.""",
"C33": """Random configurations are given through maps, statement options, JSON, TOML, URLs with options and (in child processes) environment variables. Each resulting configuration is compared field by field, and each store is asked for an object: a mock endpoint records the request and the monitor checks address, bucket, decoded path, signer, region, session token and recomputes the SigV4 signature with the configured secret (or checks that there is none). Options must win over the environment, allow_http=false must send nothing, unknown or malformed settings must be refused, announced locations must open the same store. A whole Seafowl also runs on the mock bucket with a prefix, with external tables in other buckets with and without options.""",
"C60": """`squash_batches` itself (through a guarded hook) gets generated sequences of inserts, updates, deletes and key moves - chained, with flagged and unflagged columns in any order, split into arbitrary batches. The oracle replays the sequence on a map; the squashed set applied at once to the same start must give the same map, hold each old and each new key once, and change only rows which existed. The repository's own test counts rows only. Found and repaired: flags of all columns followed the first one's, crosswise keys, a crash when everything cancels out.""",
"C61": """The real writer is fed generated messages (column subsets, flags, column orders, composite keys, key moves, deletes) and flushed; after every flush the Delta table is read back and compared row by row with the map obtained by replaying each change, duplicates included. Small files make pruning choose among many. Three outcomes which the repository's own tests fix are known findings, reproduced by exact histories (and reported as violations should the outcome be any other than the known one); the generator keeps histories of that kind out of the main campaign.""",
"C62": """Transactions of several origins over several tables go through the real writer with failing writes and restarts (a new writer over the same store). After every message the reported memory and durable numbers are checked: they are the last received, never go back, and whatever is claimed durable must be in the table, whose contents have to be some point of its history. What each commit's entry in the table's own log says (the last transaction it has in full, and whether it has a part of another) is compared with what was flushed. After a restart each origin resends what it was not told is durable; in the end every table must equal the replayed map. One known finding (transient keys on resend) has an exact history of its own.""",
"C54": """The oracle is a model updated only by statements that returned success. After every statement the touched database's `information_schema.tables`, `schemata`, `columns`, `routines`, `system.table_versions` (against the `_delta_log` directory of each table) and `system.dropped_tables` (against the catalogue file) are compared exactly, in a session scoped to the database and in the shared one; every fifth statement all databases are, plus name resolution of every name ever used (planned iff listed, with the listed columns), DESCRIBE and SHOW TABLES; functions are called, or must not be callable. Statements that must be refused (duplicates, reserved schema names, unknown parents) are checked to be.""",
"C63": """A real Flight server (run_flight_server) listens on the loopback in front of a full Seafowl. (1) Queries over literals of every type, empty, wide, large and failing ones: the announced schema, the streamed schema and every row must be those the context gives when asked directly, a query that fails while running must not end its stream cleanly, and a used ticket must be refused with NotFound. Statements that write must take effect exactly once however often their ticket is used. (2) Eight clients at once, some sharing a connection, each knowing what it must get: tagged rows, the schema of its search-path header, the tables of its inline metastore, its own writes, tickets held for later, tickets raced by three claimants (exactly one wins, with all rows), and streams abandoned in the middle. (3) Hostile messages: random and mutated tickets and commands, every Flight SQL command that isn't offered, malformed sync messages (descriptors, roles, stores, IPC headers and bodies); each must get an error status within two minutes, no handler may panic, and two canary clients that query and sync throughout must not notice and must find everything they sent in their table.""",
"C52": """Histories of overlapping INSERT/UPDATE/DELETE/SELECT/CTAS/IF NOT EXISTS/DROP/RENAME statements are run through HTTP and through separate sessions, with invocation and return times recorded; an offline checker searches for an order, compatible with real time, in which every reported result and the final tables are right (a refused statement must have overlapped one changing the same table, and has no effect). The stress run counts successful increments, appends and copies and looks for lost updates, torn reads and half-made copies while somebody creates and drops tables. Not covered: RENAME at the same time as DROP/RENAME of the same table (the code looks up by name, then acts on the number; both may succeed), and updates that depend on rows a concurrent INSERT adds (Delta's conflict rules allow them).""",
"C55": """Tables with marked contents are placed in directories and S3 mocks, and a metadata service (or the query itself, for inline metastores) describes them under random names, locations and store options. Everything that information_schema lists and every table's rows, now and as of the far future, are compared with the description; each S3 request must go to the store that holds the table and be signed with its key and region; Iceberg tables (a stand-in library) must be opened at the described location with the described options. Statements that would change anything must fail and leave every file and object as it was, wherever the tables are. Odd answers (empty, repeated or conflicting entries, unknown formats and stores, bad locations and names, hundreds of tables), errors of the service, its death and restart, and answers that change between statements while clients query are all judged by the same model: an error or exactly what some answer said, never a panic or a mixture. Assumptions: stores in one answer have different locations; conflicting duplicates may show as either; INSERT into Iceberg tables is not covered; a remote schema called staging or system is hidden by the local one.""",
"C56": """Two generators. (1) One client runs a random history (CREATE, CTAS, INSERT, UPDATE, DELETE, TRUNCATE, DROP TABLE/SCHEMA, RENAME, VACUUM; partition limits of 1 to 1000 rows) on a disk; a spy around the object store copies the directory before and after each store operation, so that each copy is exactly what a kill there would leave (the client is alone, so the catalogue is at rest then). Each copy is opened by the real start-up code and must show the state before or after the statement; states never go back, and the last point, after the acknowledgement, is the state after. From each copy the clean-up, the statement again, or other statements are run and compared with the model. (2) Histories of one to four clients, each with schemas of its own and one shared table, in child processes, either the real seafowl_server over HTTP or the library with the garbage collection running beside it; they are killed (SIGKILL, abort) at a time, while starting, at the n-th store operation of a chosen statement or some microseconds into it. The parent knows what was acknowledged, started and refused, reopens, and compares with the states that allows; the shared table must hold each acknowledged batch once, interrupted batches in full or not at all, refused ones not at all. The same directory is used for several rounds. A kill loses nothing the kernel has taken, so loss of power is not covered. Objects that no table refers to (left by an interrupted DROP or write) are allowed. Moving the clean-up of DROP TABLE before the catalogue, and committing DELETE in two steps, are both found.""",
"C57": """Sessions of statements (CREATE, INSERT, UPDATE, DELETE, DROP, TRUNCATE, VACUUM, SELECT; several on a line, over several lines, with comments, semicolons and backslashes inside strings), commands in all their spellings, things that only look like commands, inputs that cannot be parsed or fail part-way, and unfinished last inputs are piped into `seafowl_server --cli`. Every printed table must be byte for byte the rendering of the rows the model expects, in order, each input followed by one time, each failure named on stderr, and nothing else may appear. `--one-off` commands are compared as JSON lines with their exit status. After each, the directory is opened and all tables compared. The empty result of a SELECT may be shown as an empty table or not at all.""",
"C08": """Entries are put into the register of a real SQLite catalogue (identifiers that differ in one byte, names that are wildcards, other cases or prefixes of each other, default and explicit status, extreme times). Random histories of updates, removals, other catalogue operations, reopenings and changes made to fail by a trigger run against it; after each step the listings of all databases and of two names are compared with a model. Rounds of four clients on two connection pools then update and remove the same entries at once: at most one removal of an entry succeeds, it is listed afterwards if and only if none did, its status is one that was set. Reaches what the only test cannot: several entries, names that match loosely, failures and races.""",
"C26": """Random tables with odd names are made in SQLite files and put up as remote tables, introspected or declared (other types, fewer columns, another order). Random queries - any or no columns, nested filters, aggregates, groups, limits with offsets, joins, EXISTS, self-joins - are run through Seafowl and, over the same rows in memory, through a plain query engine: rows, names and types must agree; after changes at the remote side too. A log of what was sent shows that only SELECTs are, that identifiers are quoted in the dialect's way and that the protocol is the configured one. INSERT, UPDATE, DELETE, TRUNCATE and DROP through Seafowl must leave the remote file byte for byte as it was; tables, hosts, files and schemes that don't exist must give errors and leave the other tables usable. connector-x is a git fork that can't be fetched: a stand-in (harness/shims/connectorx) with its API and its type mapping runs the SQL on real SQLite; PostgreSQL and MySQL are answered by SQLite too, which reads the common part of their SQL, so their own semantics are C25's subject. No server of either is here.""",
"C64": """The real exporter is started in the harness process and read over HTTP. Sync histories (several tables, column subsets, splits into batches, flush thresholds, uploads that fail) keep a ledger: rows and bytes received equal the request counters; received minus squashed minus flushed equals the rows in memory, at every step; bytes in memory are positive exactly while rows are; the memory and durable sequence gauges equal what the writer reports for the origin; the oldest-message time lies between the start and now and is zero when nothing is pending; the time of the last flush moves with the flushed rows; after everything is flushed every gauge is zero. HTTP: every request by method, route and the status really answered - refused logins, unknown databases, wrong hashes, unknown paths, methods not allowed, failing statements, uploads - is counted exactly once under exactly that status, and the reserved-memory gauge is back at zero. Object store: random calls (put, multipart with and without options, get, head, delete, list, copy, ranges, injected failures) on the caching store over a recording one; requests by operation and outcome, bytes asked for and bytes fetched equal what the recording store saw. gRPC: the same for GetFlightInfo, DoGet and unimplemented methods with the code the client got. The times recorded, in the unit of their name, must add up to no more than the time there was, and bytes received to bytes squashed, flushed or held. Found: flush times recorded in milliseconds under a name in seconds, rejected HTTP requests counted (and logged) as 500, and squashing raising the in-memory gauge.""",
}
