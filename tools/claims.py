HOOKS = {"guard": "cfg(seafowl_verif)", "enable": "rustc --cfg seafowl_verif, which harness/seafowl/build.rs passes when the checks compile /repo", "source_commits": ["31519d5", "800135f"]}
NA = {}
CLAIMS = {
 "C01": ("linearizability checker (Wing-Gong) over recorded concurrent histories, and a sequential reference model",
         "exploration", "random histories of bounded length and client count; object names from a hostile pool"),
 "C02": ("crash and fault injection at SQLite storage events (process kill, failing statements) with an offline durability/atomicity checker; observer connection at every event",
         "fault_enumeration", "kill points are drawn per storage event kind; process kill, not power loss"),
 "C03": ("reference-model monitor over sequential scripts; linearizability checker over concurrent histories",
         "exploration", "random scripts; clock assumed not to go backwards"),
 "C04": ("round-trip monitor: listed column definitions compared with the ones stored, after every kind of later change",
         "exploration", "random Arrow fields of nesting depth up to 3 and adversarial names"),
 "C05": ("reference-model monitor over scripts of function changes; linearizability checker over concurrent histories",
         "exploration", "random scripts over several databases"),
 "C06": ("call-result and content-digest monitor on read-only handles beside the writable one",
         "exploration", "random calls in each journal mode, with and without a live writer"),
 "C07": ("content comparison monitor across upgrades from every migration level",
         "exploration", "random contents expressible at each level"),
 "C10": ("differential monitor against the engine's own parser on generated and mutated texts; list-equals-parts oracle; crash, abort and no-end detection in child processes for deep nesting",
         "exploration", "generated and mutated texts; nesting to 20000 levels; defects of the sqlparser library itself are listed as known findings"),
 "C11": ("reference-construction monitor: each statement is generated as tokens with the syntax tree it must give; single-token corruptions judged by an independent recogniser",
         "exploration", "generated statements of the extension grammar"),
 "C12": ("independent oracle table of SQL types to Arrow types, compared with build_schema on generated DDL", "exploration", "all scalar types with boundary and out-of-range parameters"),
 "C13": ("independent rewriter and name resolver compared with the visitor's output and collected set", "exploration", "generated queries of bounded depth"),
 "C14": ("independent calendar arithmetic compared with the parsed instant for texts in every supported and unsupported format, and a clocked log of each table's contents compared with what reads as of a time return", "exploration", "version text to instant; histories of 6 to 12 changes, renames and re-creations of 3 to 5 tables with plain and quoted names in several schemas, on disk and in memory; reads from sessions of several schemas, in subqueries, joins, CTEs, and from concurrent HTTP clients"),
 "C15": ("equality/hash/rebuild/describe monitor over pairs of generated plan nodes", "exploration", "all node kinds with field values from a hostile pool"),
 "C20": ("value-echo monitor: generated WASM modules return their arguments or a checksum of them, compared per row; guest memory canaries; concurrent callers",
         "exploration", "all type signatures; values from extremes and random; batches to a few thousand rows"),
 "C21": ("hostile-module injection in child processes with crash, hang and sandbox-escape monitors", "fault_enumeration", "families of hostile modules with generated pointers and lengths; endless loops are not monitored"),
 "C22": ("independent validator of function definitions compared with registration and call results; stored-text round-trip", "exploration", "generated definitions, valid and with single faults"),
 "C25": ("differential monitor: generated filters run on Arrow batches and, as sent, on SQLite and on hand-written PostgreSQL and MySQL evaluators (the evaluator itself compared with SQLite)",
         "exploration", "filters of depth up to 5, every pair of operators, boundary literals of every scalar kind"),
 "C30": ("byte-level comparison monitor on every answer of the real cache over a fault-injecting, delaying store; concurrent readers; cache files removed underneath", "exploration", "objects are not overwritten while cached; random geometries and ranges"),
 "C31": ("request-log checker at the store behind the cache against the set of chunks known to be present; disk-usage, expiry, recency and counter monitors", "exploration", "random geometries; expiry judged with generous time margins"),
 "C35": ("conservation monitor over the metrics registry and the wrapped pool's own accounts, concurrent consumers, differential against the bare pool", "exploration", "random histories; gauge judged at points where no call is in progress"),
 "C40": ("decision-table monitor over every combination of access settings and credentials, directly and through the real HTTP routes, with the database digested around every refused request", "exploration", "the settings' five kinds for reads and writes, credentials drawn around the passwords"),
 "C43": ('state-digest monitor (files, catalogue rows, listings, settings, table contents) around every request by a caller without write access; the same text sent by a writer shows whether it writes', 'exploration', 'about 55 kinds of writing statements in 13 wrappings through 9 kinds of request'),
 "C44": ('conditional-request monitor: rows that POST gives now and contents of every table read, compared with each 304 or 200 answer over interleaved table changes', 'exploration', 'random queries of depth up to 4 over four tables; functions not replaced meanwhile'),
 "C42": ('response monitor: failing requests of every stage, and TCP disturbances, against a table of the status and message each deserves; secrets and continued service watched', 'exploration', 'random failing requests over all access settings'),
 "C45": ('round-trip monitor: values sent to the server in SQL, CSV and Parquet compared with what POST and GET answers carry and what tables hold afterwards', 'exploration', 'random result sets over 36 column types; random CSV and Parquet uploads with damaged files, torn bodies and values that do not fit'),
 "C50": ("model-based monitor: every table's contents compared with an SQL reference model after every statement", 'exploration', 'random histories of 15 to 40 statements over several schemas, hostile names, partition sizes 1 to 1000; 50-90k row tables for page and row-group pruning; NOT NULL columns'),
 "C41": ('offline oracle over loaded settings (model of the documented settings) and black-box runs of the real server binary', 'exploration', '4000 random configurations and 62 wrong-value kinds in process, 10 servers and 4 refused start-ups per quick run; postgres catalogue and frontend are not built'),
 "C51": ('online monitor of the object store and decoding of the written files against the result they were written from', 'exploration', 'random schemas, batches and partition sizes, with failing uploads, some 16 s per quick run'),
 "C53": ('model-based monitor of histories with injected store and catalogue failures: object store contents, catalogue rows and reads after every step', 'fault_enumeration', '45 histories of 20 to 45 steps per quick run, each step failing in one of seven ways with probability 0.45'),
 "C34": ('model-based monitoring of the per-table stores with a recording shared store', 'exploration', 'single process; in-memory and local shared stores; 2-5 tables with overlapping prefixes, up to 60 operations a history'),
 "C32": ('reference-model monitoring against a fault-injecting HTTP server', 'exploration', 'objects up to 5 kB (tables up to 3000 rows), one fault kind at a time, loopback HTTP only (no TLS)'),
 "C33": ('request monitoring at a mock S3/GCS endpoint with signature verification', 'exploration', 'loopback endpoints; S3 and GCS (service-account files and keys without OAuth), local and memory; TLS, region auto-detection and instance metadata are out of reach offline'),
 "C60": ('online comparison of the real squashing of generated change histories with a reference map that replays them', 'exploration', 'keys of 1-3 columns of 6 types, up to 4 value columns with any subset flagged, up to 60 chained changes in any split into batches'),
 "C61": ('differential run of the real replication writer over a real Delta table against a reference map that replays every change', 'exploration', 'tables of up to 3 key and 4 value columns over several flushes of up to 5 differently shaped messages, files of 2 to 1000 rows'),
 "C62": ("online checking of every acknowledgement against the tables' actual contents, with injected store failures and restarts", 'exploration', '1-3 origins over 1-3 tables, transactions of up to 3 parts, put failures at data or log files, restarts at any message'),
 "C54": ("runtime monitoring: random DDL/DML histories over several databases on the real server context, with every listing compared after each statement with a model of the statements that succeeded, the catalogue file and the tables' logs", 'exploration', 'histories of 28 statements over up to 5 databases, 7 schema and 12 table names (quoted, unquoted in any case, with dots, quotes, wildcards)'),
 "C63": ("online oracle over the network: a real Flight server, its answers compared with the context's own, concurrent clients with self-identifying results, hostile messages with canary clients and a panic monitor", 'exploration', '4 (80) servers, 40 queries each, 8 clients at once with 20 (60) steps, 120 (400) hostile messages each; query results up to 9 MB'),
 "C52": ('offline checker over recorded histories of overlapping statements: a Wing-Gong search for an order that explains every result, plus conservation counters (increments, appends, copies, torn reads) under stress', 'exploration', '3 set-ups (slow spied store, disk, two servers on one catalogue), up to 4 clients, <=10 overlapping statements per history; stress of 6 clients plus table churn; 18 rounds quick, 400 thorough'),
 "C55": ("a mock metadata service and S3 servers under the monitor's control; every listing, read, refusal and signed request of the real server compared with what the service answered", 'exploration', 'catalogues of up to 3 schemas of 4 tables with hostile names, Delta and Iceberg tables in up to 3 directories and 3 buckets with different keys; 9 kinds of odd answers; sessions, HTTP, Flight and inline queries'),
 "C56": ('runtime monitoring with injected crashes: the files of a running server are copied before and after every operation of its object store and each copy is started again, and child processes (the real server binary over HTTP, and several clients in one process) are killed at a store operation, inside a statement or at a time; an oracle over the acknowledgements decides which states may be found', 'exploration', 'quick: about 20 histories of 14 statements with every crash point between operations of the store (some 700 points), and about 40 killed processes; thorough: until the time is over; only local objects and the SQLite catalogue'),
 "C57": ('runtime monitoring of the real server binary in its interactive and one-off modes: generated sessions are piped in, and an oracle consumes its standard output, errors and exit status event by event and compares the tables afterwards with a model', 'exploration', 'quick: 60 histories of two to four sessions or one-off commands; thorough: until the time is over; input is piped (no terminal, so no line editing)'),
 "C08": ('runtime monitoring: model-based oracle over recorded histories of the register, with injected failures and concurrent clients', 'exploration', '80 histories of 60 operations and 60 concurrent rounds per quick run; 4000 of each in the thorough tier'),
 "C26": ('runtime monitoring: differential oracle (the same query over the same rows in memory) on live remote SQLite files, with a log of everything sent', 'exploration', '60 rounds of 1-3 tables and 12 queries (thorough: 1500)'),
 "C64": ('runtime monitoring: the real Prometheus exporter is scraped after every request, sync message and flush, and an accounting oracle compares each counter and gauge with what was really sent, answered, flushed and held', 'exploration', 'quick: 70 sync histories, 200 HTTP and 120 gRPC requests; thorough: 4000 histories, 5000 and 3000 requests'),
}
