//! C54: information schema and system tables against the live objects
use super::dml::run;
use crate::sf::{rows, scratch, Sf};
use seafowl::context::SeafowlContext;
use sfv::{chance, pick, rand::{rngs::StdRng, Rng}, Ctx};
use sqlx::{ConnectOptions, Connection, Row, SqliteConnection};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
struct Col { name: String, ty: String, nullable: bool }
type Table = Vec<Col>;
type Key = (String, String, String); // database, schema, table

#[derive(Clone, Debug, Default)]
struct World {
    schemas: BTreeSet<(String, String)>,
    tables: BTreeMap<Key, Table>,
    functions: BTreeMap<(String, String), &'static str>,
    external: BTreeMap<String, Table>,
}

const WASM: &str = "AGFzbQEAAAABBgFgAX4BfgMCAQAHBwEDZm9vAAAKBgEEACAACw==";
const TYPES: [(&str, &str); 18] = [
    ("BOOLEAN", "Boolean"), ("TINYINT", "Int8"), ("SMALLINT", "Int16"), ("INT", "Int32"), ("INTEGER", "Int32"), ("BIGINT", "Int64"), ("INT8", "Int64"),
    ("FLOAT", "Float32"), ("REAL", "Float32"), ("DOUBLE", "Float64"), ("VARCHAR", "Utf8"), ("TEXT", "Utf8"), ("CHAR(3)", "Utf8"), ("DATE", "Date32"),
    ("TIMESTAMP", "Timestamp(Microsecond, None)"), ("DECIMAL(12, 3)", "Decimal128(12, 3)"), ("NUMERIC(38)", "Decimal128(38, 0)"), ("BYTEA", "Binary"),
];
const RESERVED: [&str; 3] = ["system", "staging", "information_schema"];

fn id(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }
/// how a statement may write the name: a lowercase one also as is, or unquoted in another case
fn name(r: &mut StdRng, s: &str) -> String {
    let plain = s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') && s.chars().next().map_or(false, |c| c.is_ascii_alphabetic());
    if !plain || matches!(s, "default" | "public" | "system") { return id(s) }
    match r.gen_range(0..3) { 0 => id(s), 1 => s.to_string(), _ => s.chars().map(|c| if chance(r, 0.5) { c.to_ascii_uppercase() } else { c }).collect() }
}
fn lit(s: &str) -> String { format!("'{}'", s.replace('\'', "''")) }

async fn ask(c: &SeafowlContext, q: &str) -> Result<Vec<Vec<String>>, String> {
    match run(c, q).await { Ok(Ok(b)) => { let mut r = rows(&b); r.sort(); Ok(r) } Ok(Err(e)) => Err(e), Err(p) => Err(format!("CRASH {p}")) }
}

fn columns(r: &mut StdRng) -> Table {
    let pool = ["a", "b", "Mixed", "sp ace", "é", "dot.ted", "order", "quo\"te", "apo'st", "z9"];
    let n = r.gen_range(1..6);
    let mut out: Table = vec![];
    while out.len() < n {
        let c = pick(r, &pool).to_string();
        if out.iter().all(|x| x.name != c) { out.push(Col { name: c, ty: pick(r, &TYPES).0.to_string(), nullable: chance(r, 0.75) }) }
    }
    out
}
fn arrow(ty: &str) -> &'static str { TYPES.iter().find(|t| t.0 == ty).unwrap().1 }

async fn compare(ctx: &Ctx, sf: &Sf, w: &World, dbs: &[String], universe: &BTreeSet<(String, String)>, what: &str, deep: bool, touched: &[&str], functions: bool) -> bool {
    let mut fine = true;
    let st = sfv::hash_of(format!("{w:?}").as_bytes());
    macro_rules! bad { ($sig:expr, $($t:tt)*) => {{ ctx.violation($sig, &format!("{}\n{what}", format!($($t)*))); fine = false; }} }
    let mut sessions: Vec<(&str, &str, Arc<SeafowlContext>)> = dbs.iter().map(|d| (d.as_str(), "scoped", sf.ctx.scope_to_catalog(d.clone()))).collect();
    sessions.push(("default", "shared", sf.ctx.clone()));
    for (d, how, s) in sessions {
        let key = if how == "shared" { "shared" } else { d };
        if !deep && !touched.contains(&key) { continue }
        let at = |x: &str| format!("{x} of database {d:?} ({how} session)");
        // what exists
        let mut tables: BTreeMap<(String, String), Option<&Table>> = w.tables.iter().filter(|(k, _)| k.0 == d).map(|(k, t)| ((k.1.clone(), k.2.clone()), Some(t))).collect();
        for (n, t) in &w.external { tables.insert(("staging".into(), n.clone()), Some(t)); }
        for t in ["table_versions", "dropped_tables"] { tables.insert(("system".into(), t.into()), None); }
        let schemas: BTreeSet<String> = w.schemas.iter().filter(|x| x.0 == d).map(|x| x.1.clone()).chain(["system", "staging"].iter().map(|x| x.to_string())).collect();

        ctx.eval(&format!("0 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT table_catalog, table_schema, table_name, table_type FROM information_schema.tables WHERE table_schema <> 'information_schema'").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("tables")),
            Ok(got) => {
                let mut want: Vec<Vec<String>> = tables.keys().map(|(sc, t)| vec![d.to_string(), sc.clone(), t.clone(), if sc == "system" { "VIEW" } else { "BASE TABLE" }.to_string()]).collect();
                want.sort();
                ctx.count("table_rows", got.len() as u64);
                if got != want { bad!("tables-differ", "{}:\n got {got:?}\nwant {want:?}", at("tables")) }
            }
        }
        ctx.eval(&format!("1 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT catalog_name, schema_name FROM information_schema.schemata").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("schemas")),
            Ok(got) => {
                let want: Vec<Vec<String>> = schemas.iter().map(|x| vec![d.to_string(), x.clone()]).collect();
                if got != want { bad!("schemas-differ", "{}:\n got {got:?}\nwant {want:?}", at("schemas")) }
            }
        }
        ctx.eval(&format!("2 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT table_catalog, table_schema, table_name, ordinal_position, column_name, is_nullable, data_type FROM information_schema.columns WHERE table_schema NOT IN ('information_schema', 'system')").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("columns")),
            Ok(got) => {
                let mut want: Vec<Vec<String>> = vec![];
                for ((sc, t), cols) in &tables { for (i, c) in cols.iter().flat_map(|x| x.iter()).enumerate() {
                    want.push(vec![d.to_string(), sc.clone(), t.clone(), i.to_string(), c.name.clone(), if c.nullable { "YES" } else { "NO" }.to_string(), arrow(&c.ty).to_string()]);
                } }
                want.sort();
                ctx.count("column_rows", got.len() as u64);
                if got != want {
                    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                    let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                    bad!("columns-differ", "{}:\nunexpected {extra:?}\nmissing {lost:?}", at("columns"))
                }
            }
        }
        if deep || functions {
        ctx.eval(&format!("3 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT DISTINCT routine_name FROM information_schema.routines WHERE routine_name LIKE 'sfv%' OR routine_name LIKE 'Sfv%'").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("functions")),
            Ok(got) => {
                let want: Vec<Vec<String>> = w.functions.keys().filter(|x| x.0 == d).map(|x| vec![x.1.clone()]).collect();
                if got != want { bad!("functions-differ", "{}:\n got {got:?}\nwant {want:?}", at("functions")) }
            }
        }
        }
        for f in ["sfv_f", "sfv_g", "SfvMixed", "sfvmixed"] {
            if !deep && !functions { break }
            ctx.eval(&format!("4 {d} {how} {st:x}"), true);
            let exists = w.functions.contains_key(&(d.to_string(), f.to_string()));
            match ask(&s, &format!("SELECT {}(7)", id(f))).await {
                Ok(v) if exists => { if v != vec![vec!["7".to_string()]] { bad!("function-result", "{f} in {}: {v:?}", at("functions")) } }
                Ok(v) => bad!("dropped-function-callable", "{f} isn't a function {}, yet gives {v:?}", at("")),
                Err(e) if exists => bad!("listed-function-fails", "{f}, {}: {e}", at("functions")),
                Err(e) if e.starts_with("CRASH") => bad!("crash", "{f}: {e}"),
                Err(_) => (),
            }
        }
        // the versions, from the tables' own logs
        let mut want: Vec<Vec<String>> = vec![];
        let mut c = sqlx::sqlite::SqliteConnectOptions::new().filename(sf.dir.join("seafowl.sqlite")).busy_timeout(std::time::Duration::from_secs(20)).connect().await.unwrap();
        let uuids: BTreeMap<(String, String), String> = sqlx::query("SELECT d.name d, c.name c, t.name t, lower(hex(t.uuid)) u FROM \"table\" t JOIN collection c ON c.id = t.collection_id JOIN database d ON d.id = c.database_id WHERE d.name = $1").bind(d).fetch_all(&mut c).await.unwrap()
            .iter().map(|r| ((r.get("c"), r.get("t")), uuid::Uuid::parse_str(&r.get::<String, _>("u")).unwrap().to_string())).collect();
        let dropped: Vec<Vec<String>> = sqlx::query("SELECT database_name d, collection_name c, table_name t, lower(hex(uuid)) u, deletion_status s, CAST(drop_time AS INTEGER) w FROM dropped_table WHERE database_name = $1").bind(d).fetch_all(&mut c).await.unwrap()
            .iter().map(|r| vec![r.get("d"), r.get("c"), r.get("t"), uuid::Uuid::parse_str(&r.get::<String, _>("u")).unwrap().to_string(), r.get("s"), r.get::<i64, _>("w").to_string()]).collect();
        c.close().await.unwrap();
        for (k, _) in tables.iter().filter(|(k, _)| k.0 != "system" && k.0 != "staging") {
            let Some(u) = uuids.get(k) else { continue };
            let mut vs: Vec<i64> = std::fs::read_dir(sf.dir.join("data").join(u).join("_delta_log")).into_iter().flatten().flatten()
                .filter_map(|e| e.file_name().to_string_lossy().strip_suffix(".json").and_then(|x| x.parse().ok())).collect();
            vs.sort();
            for v in vs { want.push(vec![d.to_string(), k.0.clone(), k.1.clone(), v.to_string()]) }
        }
        want.sort();
        ctx.eval(&format!("5 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT table_schema, table_name, version, CAST(creation_time AS BIGINT) FROM system.table_versions").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("versions")),
            Ok(got) => {
                ctx.count("version_rows", got.len() as u64);
                let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
                for g in &got { let t: i64 = g[3].parse().unwrap_or(0); if (now - t).abs() > 3600 { bad!("version-time", "{}: {g:?}", at("versions")) } }
                let got: Vec<Vec<String>> = got.iter().map(|g| vec![d.to_string(), g[0].clone(), g[1].clone(), g[2].clone()]).collect();
                if got != want {
                    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                    let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                    bad!("versions-differ", "{}:\nunexpected {extra:?}\nmissing {lost:?}\n{} rows, {} in the logs", at("versions"), got.len(), want.len())
                }
            }
        }
        ctx.eval(&format!("6 {d} {how} {st:x}"), true);
        match ask(&s, "SELECT table_schema, table_name, uuid, deletion_status, CAST(drop_time AS BIGINT) FROM system.dropped_tables").await {
            Err(e) => bad!("listing-fails", "{}: {e}", at("dropped tables")),
            Ok(got) => {
                let mut want: Vec<Vec<String>> = dropped.iter().map(|x| x[1..].to_vec()).collect();
                want.sort();
                ctx.count("dropped_rows", got.len() as u64);
                if got != want { bad!("dropped-tables-differ", "{}:\n got {got:?}\nwant {want:?}", at("dropped tables")) }
            }
        }
        if !deep { continue }
        // resolution
        let names: BTreeSet<(String, String)> = universe.iter().cloned().chain(tables.keys().cloned()).collect();
        for k in &names {
            ctx.eval(&format!("7 {d} {how} {st:x}"), true);
            let listed = tables.contains_key(k);
            let q = format!("SELECT * FROM {}.{}", id(&k.0), id(&k.1));
            match s.plan_query(&q).await {
                Ok(p) => {
                    if !listed { bad!("unlisted-name-resolves", "{k:?} of {d:?} isn't listed, but {q} can be planned"); continue }
                    if let Some(Some(t)) = tables.get(k) {
                        let got: Vec<(String, String)> = p.schema().fields().iter().map(|f| (f.name().clone(), f.data_type().to_string())).collect();
                        let want: Vec<(String, String)> = t.iter().map(|c| (c.name.clone(), arrow(&c.ty).to_string())).collect();
                        if got != want { bad!("columns-of-query", "{q} in {d:?}: {got:?}, listed as {want:?}") }
                        ctx.count("resolved", 1);
                    }
                }
                Err(e) => { if listed { bad!("listed-name-fails", "{q} in {d:?}: {e}") } else { ctx.count("unresolved", 1) } }
            }
            if let (Some(Some(t)), true) = (tables.get(k), k.0 != "staging") {
                for q in [format!("DESCRIBE {}.{}", id(&k.0), id(&k.1)), format!("SELECT column_name, data_type, is_nullable FROM information_schema.columns WHERE table_schema = {} AND table_name = {}", lit(&k.0), lit(&k.1))] {
                    ctx.eval(&format!("8 {d} {how} {st:x}"), true);
                    let mut want: Vec<Vec<String>> = t.iter().map(|c| vec![c.name.clone(), arrow(&c.ty).to_string(), if c.nullable { "YES" } else { "NO" }.to_string()]).collect();
                    want.sort();
                    match ask(&s, &q).await { Ok(g) => { if g != want { bad!("describe", "{q} in {d:?}: {g:?}, want {want:?}") } } Err(e) => bad!("listing-fails", "{q} in {d:?}: {e}") }
                }
            }
        }
        for q in ["SHOW TABLES"] {
            ctx.eval(&format!("9 {d} {how} {st:x}"), true);
            match ask(&s, q).await { Ok(g) => { let n = g.iter().filter(|x| x.get(1).map(|y| y != "information_schema").unwrap_or(true)).count(); if n != tables.len() { bad!("show-tables", "{}: {g:?}", at(q)) } } Err(e) => bad!("listing-fails", "{}: {e}", at(q)) }
        }
    }
    fine
}

async fn history(ctx: &Ctx, r: &mut StdRng, steps: usize) {
    let sf = Sf::disk("").await;
    let mut w = World::default();
    w.schemas.insert(("default".into(), "public".into()));
    let mut dbs = vec!["default".to_string()];
    let mut trace: Vec<String> = vec![];
    let mut universe: BTreeSet<(String, String)> = Default::default();
    let csv = scratch();
    std::fs::write(csv.join("x.csv"), "k,v\n1,a\n").unwrap();
    let tnames = ["t", "T", "u", "dot.ted", "a_b", "aXb", "é", "It's", "quo\"te", "table_versions", "sp ace", "%"];
    let snames = ["public", "s", "S", "s_1", "sX1", "dot.ted", "a b"];
    for n in 0..steps {
        let names: Vec<Key> = w.tables.keys().cloned().collect();
        let db = pick(r, &dbs).clone();
        let mine: Vec<String> = w.schemas.iter().filter(|x| x.0 == db).map(|x| x.1.clone()).collect();
        let mut next = w.clone();
        let mut at = db.clone();
        let mut sure = true; // whether the outcome is certain
        let roll = if names.len() < 2 { r.gen_range(0..8) } else { r.gen_range(0..24) };
        let (kind, q, good): (&str, String, bool) = match roll {
            0 => { let d = pick(r, &["d1", "mixed", "Mixed", "a_b", "default"]).to_string(); let ok = !dbs.contains(&d); if ok { next.schemas.insert((d.clone(), "public".into())); } ("create-database", format!("CREATE DATABASE {}", name(r, &d)), ok) }
            1 | 2 => {
                let s = if chance(r, 0.12) { pick(r, &RESERVED).to_string() } else { pick(r, &snames).to_string() };
                let ok = !RESERVED.contains(&s.as_str()) && next.schemas.insert((db.clone(), s.clone()));
                ("create-schema", format!("CREATE SCHEMA {}", name(r, &s)), ok)
            }
            3 | 4 | 5 => {
                let s = if mine.is_empty() || chance(r, 0.05) { "nowhere".to_string() } else { pick(r, &mine).clone() };
                let t = pick(r, &tnames).to_string();
                let cols = columns(r);
                let k = (db.clone(), s.clone(), t.clone());
                universe.insert((s.clone(), t.clone()));
                let ok = mine.contains(&s) && !next.tables.contains_key(&k);
                let def = cols.iter().map(|c| format!("{} {}{}", id(&c.name), c.ty, if c.nullable { "" } else { " NOT NULL" })).collect::<Vec<_>>().join(", ");
                if chance(r, 0.4) {
                    let cols: Table = cols.into_iter().map(|c| Col { nullable: true, ..c }).collect();
                    let sel = cols.iter().map(|c| format!("CAST(NULL AS {}) AS {}", c.ty, id(&c.name))).collect::<Vec<_>>().join(", ");
                    if ok { next.tables.insert(k, cols); }
                    ("create-as", format!("CREATE TABLE {}.{} AS SELECT {sel}", name(r, &s), name(r, &t)), ok)
                } else {
                    if ok { next.tables.insert(k, cols); }
                    ("create", format!("CREATE TABLE {}.{} ({def})", name(r, &s), name(r, &t)), ok)
                }
            }
            6 => { let f = pick(r, &["sfv_f", "sfv_g", "SfvMixed", "sfvmixed"]).to_string(); let rep = chance(r, 0.4); let ok = rep || !next.functions.contains_key(&(db.clone(), f.clone())); if ok { next.functions.insert((db.clone(), f.clone()), "x"); }
                ("create-function", format!("CREATE {}FUNCTION {} AS '{{\"entrypoint\": \"foo\", \"language\": \"wasm\", \"input_types\": [\"bigint\"], \"return_type\": \"bigint\", \"data\": \"{WASM}\"}}'", if rep { "OR REPLACE " } else { "" }, name(r, &f)), ok) }
            7 => { let f = pick(r, &["sfv_f", "sfv_g", "SfvMixed", "sfvmixed"]).to_string(); let ok = next.functions.remove(&(db.clone(), f.clone())).is_some(); ("drop-function", format!("DROP FUNCTION {}", name(r, &f)), ok) }
            8 | 9 | 10 | 11 => { let k = pick(r, &names).clone(); at = k.0.clone(); sure = false; ("insert", format!("INSERT INTO {}.{} VALUES ({})", name(r, &k.1), name(r, &k.2), w.tables[&k].iter().map(|_| "NULL").collect::<Vec<_>>().join(", ")), true) }
            12 => { let k = pick(r, &names).clone(); at = k.0.clone(); ("delete", format!("DELETE FROM {}.{}", name(r, &k.1), name(r, &k.2)), true) }
            13 => { let k = pick(r, &names).clone(); at = k.0.clone(); ("truncate", format!("TRUNCATE TABLE {}.{}", name(r, &k.1), name(r, &k.2)), true) }
            14 | 15 => { let k = pick(r, &names).clone(); at = k.0.clone(); next.tables.remove(&k); ("drop", format!("DROP TABLE {}.{}", name(r, &k.1), name(r, &k.2)), true) }
            16 | 17 => {
                let k = pick(r, &names).clone(); at = k.0.clone();
                let ss: Vec<String> = w.schemas.iter().filter(|x| x.0 == k.0).map(|x| x.1.clone()).collect();
                let to = (k.0.clone(), if chance(r, 0.5) { k.1.clone() } else { pick(r, &ss).clone() }, pick(r, &tnames).to_string());
                universe.insert((to.1.clone(), to.2.clone()));
                let ok = !w.tables.contains_key(&to);
                sure = to != k;
                if ok { let v = next.tables.remove(&k).unwrap(); next.tables.insert(to.clone(), v); }
                ("rename", format!("ALTER TABLE {}.{} RENAME TO {}.{}", name(r, &k.1), name(r, &k.2), name(r, &to.1), name(r, &to.2)), ok)
            }
            18 => { let s = pick(r, &mine).clone(); if s == "public" || chance(r, 0.4) { continue } next.schemas.remove(&(db.clone(), s.clone())); next.tables.retain(|k, _| !(k.0 == db && k.1 == s)); ("drop-schema", format!("DROP SCHEMA {} CASCADE", name(r, &s)), true) }
            19 => { let x = pick(r, &["x1", "X2", "x2"]).to_string(); sure = false; if !next.external.contains_key(&x) { next.external.insert(x.clone(), vec![Col { name: "k".into(), ty: "BIGINT".into(), nullable: true }, Col { name: "v".into(), ty: "TEXT".into(), nullable: true }]); }
                ("create-external", format!("CREATE EXTERNAL TABLE {} STORED AS CSV OPTIONS ('format.has_header' 'true') LOCATION '{}/x.csv'", name(r, &x), csv.display()), true) }
            20 => { let Some(x) = w.external.keys().next().cloned() else { continue }; next.external.remove(&x); ("drop-external", format!("DROP TABLE staging.{}", name(r, &x)), true) }
            21 => {
                // a table that an earlier release dropped and left for the clean-up
                let u = uuid::Uuid::from_u128(r.gen());
                let mut c: SqliteConnection = sqlx::sqlite::SqliteConnectOptions::new().filename(sf.dir.join("seafowl.sqlite")).busy_timeout(std::time::Duration::from_secs(20)).connect().await.unwrap();
                sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, deletion_status, drop_time) VALUES ($1, $2, $3, $4, $5, $6)").bind(&db).bind(pick(r, &snames)).bind(pick(r, &tnames)).bind(u).bind(pick(r, &["PENDING", "RETRY", "FAILED"])).bind(r.gen_range(0..2_000_000_000i64)).execute(&mut c).await.unwrap();
                c.close().await.unwrap();
                trace.push(format!("dropped_table entry {u} in {db}"));
                continue;
            }
            22 => { let k = pick(r, &names).clone(); at = k.0.clone(); ("update", { let c = id(&w.tables[&k][0].name); format!("UPDATE {}.{} SET {c} = NULL WHERE {c} IS NOT NULL", name(r, &k.1), name(r, &k.2)) }, true) }
            _ => { let k = pick(r, &names).clone(); at = k.0.clone(); ("create-again", format!("CREATE TABLE {}.{} (zz INT)", name(r, &k.1), name(r, &k.2)), false) }
        };
        let session = if at == "default" && chance(r, 0.5) { sf.ctx.clone() } else { sf.ctx.scope_to_catalog(at.clone()) };
        ctx.eval(&format!("{kind} {}", sfv::hash_of(format!("{w:?}").as_bytes())), true);
        let out = run(&session, &q).await;
        trace.push(format!("{n} [{at}] {q} -> {}", match &out { Ok(Ok(_)) => "ok".to_string(), Ok(Err(e)) => format!("error {}", e.chars().take(160).collect::<String>()), Err(p) => p.clone() }));
        let text = || format!("statements so far:\n{}", trace.iter().rev().take(40).rev().cloned().collect::<Vec<_>>().join("\n"));
        match out {
            Err(p) => return ctx.violation("crash", &format!("{q}: {p}\n{}", text())),
            Ok(Ok(_)) => {
                ctx.count(&format!("ok_{kind}"), 1);
                if sure && !good { ctx.violation("statement-accepted", &format!("{q} in {at} succeeds\n{}", text())); return }
                if good { w = next; }
                if kind == "create-database" { let d = w.schemas.iter().map(|x| x.0.clone()).find(|x| !dbs.contains(x)); dbs.extend(d); }
            }
            Ok(Err(e)) => {
                ctx.count(&format!("refused_{kind}"), 1);
                if sure && good { ctx.violation("statement-refused", &format!("{q} in {at}: {e}\n{}", text())); return }
            }
        }
        ctx.seen("states", &format!("{:?}", (&w.schemas, w.tables.keys().collect::<Vec<_>>(), w.functions.keys().collect::<Vec<_>>())));
        let deep = n % 5 == 4 || n + 1 == steps;
        if !compare(ctx, &sf, &w, &dbs, &universe, &text(), deep, &[at.as_str(), if at == "default" || chance(r, 0.3) { "shared" } else { "" }], kind.ends_with("function")).await { return }
    }
    ctx.count("histories", 1);
    let _ = std::fs::remove_dir_all(&csv);
}

pub fn c54(ctx: &Ctx) {
    ctx.rule("one evaluation = one statement, or one listing (tables, schemas, columns, functions, versions, dropped tables) or name resolution compared with the model of the statements that succeeded, the catalogue file and the tables' logs; distinct by state of the catalogue");
    super::rt(4).block_on(async {
        for i in 0..ctx.n(5, 400) {
            if ctx.out_of_time() { break }
            let mut r = ctx.rng_n("history", i as u64);
            history(ctx, &mut r, 28).await;
        }
    });
}
