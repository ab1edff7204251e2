//! C53: DROP, VACUUM and the clean-up of dropped tables
use super::dml::run;
use crate::sf::Sf;
use crate::spy::Spy;
use futures::StreamExt;
use object_store::{path::Path, ObjectStore};
use seafowl::context::SeafowlContext;
use seafowl::utils::gc_databases;
use sfv::{chance, pick, rand::{rngs::StdRng, Rng, RngCore}, Ctx};
use sqlx::{ConnectOptions, Connection, Row, SqliteConnection};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

type Name = (String, String, String);
#[derive(Clone, Debug, PartialEq)]
struct T { rows: Vec<i64>, uuid: String }
#[derive(Clone, Debug)]
struct Entry { status: String, db: String, objects: BTreeSet<String> }

fn quoted(n: &Name) -> String { format!("\"{}\".\"{}\"", n.1, n.2) }
async fn db(sf: &Sf) -> SqliteConnection {
    sqlx::sqlite::SqliteConnectOptions::new().filename(sf.dir.join("seafowl.sqlite")).busy_timeout(std::time::Duration::from_secs(20)).connect().await.unwrap()
}
async fn entries(sf: &Sf) -> BTreeMap<String, (String, String)> {
    let mut c = db(sf).await;
    let rows = sqlx::query("SELECT lower(hex(uuid)) u, deletion_status s, database_name d FROM dropped_table").fetch_all(&mut c).await.unwrap();
    c.close().await.unwrap();
    rows.iter().map(|r| { let u: String = r.get("u"); (uuid::Uuid::parse_str(&u).unwrap().to_string(), (r.get("s"), r.get("d"))) }).collect()
}
async fn catalogue(sf: &Sf) -> BTreeMap<Name, String> {
    let mut c = db(sf).await;
    let rows = sqlx::query("SELECT d.name d, c.name c, t.name t, lower(hex(t.uuid)) u FROM \"table\" t JOIN collection c ON c.id = t.collection_id JOIN database d ON d.id = c.database_id").fetch_all(&mut c).await.unwrap();
    c.close().await.unwrap();
    rows.iter().map(|r| ((r.get("d"), r.get("c"), r.get("t")), uuid::Uuid::parse_str(&r.get::<String, _>("u")).unwrap().to_string())).collect()
}
async fn objects(spy: &Spy) -> BTreeMap<String, BTreeSet<String>> {
    let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for m in spy.inner.list(None).collect::<Vec<_>>().await {
        let l = m.unwrap().location.to_string();
        let (a, b) = l.split_once('/').unwrap_or((&l, ""));
        out.entry(a.to_string()).or_default().insert(b.to_string());
    }
    out
}

async fn history(ctx: &Ctx, r: &mut StdRng) {
    let part = *pick(r, &[1usize, 2, 100]);
    let (sf, spy) = Sf::spied_catalogue(&format!("[misc]\nmax_partition_size = {part}")).await;
    let mut trace = vec![format!("max_partition_size {part}")];
    let dbs = ["default", "other"];
    if let Err(e) = sf.sql("CREATE DATABASE other").await { return ctx.violation("setup", &e.to_string()) }
    let scoped: BTreeMap<&str, Arc<SeafowlContext>> = [("default", sf.ctx.clone()), ("other", sf.ctx.scope_to_catalog("other".into()))].into();
    let mut schemas: BTreeSet<(String, String)> = [("default".to_string(), "public".to_string())].into();
    for d in dbs { for s in ["s1", "S 2", "public"] {
        if (d, s) == ("default", "public") { continue }
        if let Err(e) = super::super::sf::sql(&scoped[d], &format!("CREATE SCHEMA \"{s}\"")).await { if !(s == "public") { return ctx.violation("setup", &e.to_string()) } }
        schemas.insert((d.into(), s.into()));
    } }
    let mut model: BTreeMap<Name, T> = BTreeMap::new();
    let mut gone: BTreeMap<String, Entry> = BTreeMap::new(); // entries of dropped tables that wait for their clean-up
    let mut strays: BTreeSet<String> = BTreeSet::new(); // directories that a failed clean-up of DROP may leave
    for n in 0..r.gen_range(20..45) {
        let names: Vec<Name> = model.keys().cloned().collect();
        let mut next = model.clone();
        let mut next_schemas = schemas.clone();
        let vals: Vec<i64> = (0..r.gen_range(1..6)).map(|_| r.gen_range(0..30)).collect();
        let text = vals.iter().map(|v| format!("({v})")).collect::<Vec<_>>().join(", ");
        let k = r.gen_range(0..30i64);
        let mut at = pick(r, &dbs).to_string();
        let mut vacuumed: Option<Name> = None;
        let mut clean: Option<Option<String>> = None;
        let choice = if names.is_empty() { 0 } else { r.gen_range(0..16) };
        let (kind, q): (&str, String) = match choice {
            0 | 1 => {
                let all: Vec<(String, String)> = schemas.iter().cloned().collect();
                let (d, s) = pick(r, &all).clone();
                let t = (d.clone(), s, pick(r, &["t", "u", "Mixed", "dot.ted", "t1"]).to_string());
                at = d;
                if next.contains_key(&t) { continue }
                next.insert(t.clone(), T { rows: vals.clone(), uuid: String::new() });
                ("create", format!("CREATE TABLE {} AS SELECT CAST(column1 AS BIGINT) AS v FROM (VALUES {text}) x", quoted(&t)))
            }
            2 | 3 => { let t = pick(r, &names).clone(); at = t.0.clone(); next.get_mut(&t).unwrap().rows.extend(&vals); ("insert", format!("INSERT INTO {} VALUES {text}", quoted(&t))) }
            4 | 5 => { let t = pick(r, &names).clone(); at = t.0.clone(); next.get_mut(&t).unwrap().rows.retain(|x| *x <= k); ("delete", format!("DELETE FROM {} WHERE v > {k}", quoted(&t))) }
            6 => { let t = pick(r, &names).clone(); at = t.0.clone(); next.get_mut(&t).unwrap().rows.iter_mut().for_each(|x| if *x > k { *x -= 1 }); ("update", format!("UPDATE {} SET v = v - 1 WHERE v > {k}", quoted(&t))) }
            7 | 8 => { let t = pick(r, &names).clone(); at = t.0.clone(); vacuumed = Some(t.clone()); ("vacuum-table", format!("VACUUM TABLE {}", quoted(&t))) }
            9 | 10 => { let t = pick(r, &names).clone(); at = t.0.clone(); next.remove(&t); ("drop-table", format!("DROP TABLE {}", quoted(&t))) }
            11 => {
                let all: Vec<(String, String)> = schemas.iter().cloned().collect();
                let (d, s) = pick(r, &all).clone();
                if s == "public" { continue }
                at = d.clone();
                next.retain(|x, _| !(x.0 == d && x.1 == s));
                next_schemas.remove(&(d, s.clone()));
                ("drop-schema", format!("DROP SCHEMA \"{s}\" CASCADE"))
            }
            12 => {
                // a rename does not change whose data it is
                let t = pick(r, &names).clone(); at = t.0.clone();
                let to = (t.0.clone(), t.1.clone(), format!("r{n}"));
                let v = next.remove(&t).unwrap(); next.insert(to.clone(), v);
                ("rename", format!("ALTER TABLE {} RENAME TO {}", quoted(&t), quoted(&to)))
            }
            13 => { let d = pick(r, &dbs).to_string(); clean = Some(Some(d.clone())); ("vacuum-database", format!("VACUUM DATABASE {d}")) }
            14 => { clean = Some(None); ("gc", String::new()) }
            _ => {
                // a table dropped by an earlier release, which left the objects for the clean-up
                let id = uuid::Uuid::from_u128(r.gen());
                let d = pick(r, &dbs).to_string();
                let mut set = BTreeSet::new();
                for i in 0..r.gen_range(1..4) {
                    let p = if i == 0 { "_delta_log/00000000000000000000.json".to_string() } else { format!("part-{i:05}-x.parquet") };
                    spy.inner.put(&Path::from(format!("{id}/{p}")), "x".into()).await.unwrap();
                    set.insert(p);
                }
                let mut c = db(&sf).await;
                sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid) VALUES ($1, 'public', 't', $2)").bind(&d).bind(id).execute(&mut c).await.unwrap();
                c.close().await.unwrap();
                gone.insert(id.to_string(), Entry { status: "PENDING".into(), db: d, objects: set });
                trace.push(format!("dropped earlier: {id}"));
                continue;
            }
        };
        // a failure of the store, or of the catalogue
        let fault = if chance(r, 0.45) { *pick(r, &["delete", "delete-2", "list", "catalogue", "put", "copy"]) } else { "none" };
        let before_hits = spy.faults_hit.load(SeqCst);
        let trigger = fault == "catalogue" && matches!(kind, "drop-table" | "drop-schema" | "rename" | "create" | "gc" | "vacuum-database");
        if trigger {
            let mut c = db(&sf).await;
            for (i, (op, t)) in [("DELETE", "\"table\""), ("UPDATE", "\"table\""), ("INSERT", "\"table\""), ("DELETE", "collection"), ("DELETE", "dropped_table"), ("UPDATE", "dropped_table")].iter().enumerate() {
                sqlx::query(&format!("CREATE TRIGGER sfv{i} BEFORE {op} ON {t} BEGIN SELECT RAISE(ABORT, 'injected failure'); END")).execute(&mut c).await.unwrap();
            }
            c.close().await.unwrap();
        }
        match fault {
            "delete" | "list" | "put" | "copy" => spy.set_fault(Some(Arc::new(move |op: &str, _: &str| op == fault))),
            "delete-2" => { let k = AtomicU64::new(0); spy.set_fault(Some(Arc::new(move |op: &str, _: &str| op == "delete" && k.fetch_add(1, SeqCst) == 1))) }
            _ => (),
        }
        let objects_before = objects(&spy).await;
        let out = if kind == "gc" { gc_databases(&sf.ctx, sf.ctx.internal_object_store.clone().unwrap(), None).await; Ok(Ok(vec![])) } else { run(&scoped[at.as_str()], &q).await };
        spy.set_fault(None);
        let hit = spy.faults_hit.load(SeqCst) > before_hits || trigger;
        if trigger {
            let mut c = db(&sf).await;
            for i in 0..6 { sqlx::query(&format!("DROP TRIGGER sfv{i}")).execute(&mut c).await.unwrap(); }
            c.close().await.unwrap();
        }
        trace.push(format!("{at}: {kind} {q}{}  -- {}", if hit { format!(" with fault {fault}") } else { String::new() }, match &out { Ok(Ok(_)) => "ok".into(), Ok(Err(e)) | Err(e) => e.lines().next().unwrap_or("").chars().take(140).collect::<String>() }));
        let story = |m: String| format!("{m}\n{}", trace.join("\n"));
        let sig = format!("{kind}/{}", if hit { fault } else { "none" });
        ctx.eval(&format!("{sig}/{}", matches!(out, Ok(Ok(_)))), true);
        if hit { ctx.count("steps_with_a_fault", 1) }
        let before = model.clone();
        match &out {
            Err(e) => return ctx.violation(&format!("{sig}/panic"), &story(e.clone())),
            Ok(Ok(_)) => { model = next; schemas = next_schemas }
            Ok(Err(e)) if !hit => return ctx.violation(&format!("{sig}/refused"), &story(e.clone())),
            // an error after the objects could not be removed may come after the table is gone
            Ok(Err(_)) if matches!(kind, "drop-table" | "drop-schema") && fault != "catalogue" => {
                let c = catalogue(&sf).await;
                model.retain(|n, _| c.contains_key(n));
            }
            Ok(Err(_)) => (),
        }
        // the catalogue has exactly the tables of the model
        let cat = catalogue(&sf).await;
        if cat.keys().collect::<Vec<_>>() != model.keys().collect::<Vec<_>>() { return ctx.violation(&format!("{sig}/tables"), &story(format!("tables {:?}, expected {:?}", cat.keys(), model.keys()))) }
        for (n, t) in model.iter_mut() {
            if t.uuid.is_empty() { t.uuid = cat[n].clone() }
            if t.uuid != cat[n] { return ctx.violation(&format!("{sig}/uuid"), &story(format!("{n:?} has the data of another table"))) }
        }
        // all of them can be read and have their rows
        for (n, t) in &model {
            let mut want: Vec<String> = t.rows.iter().map(|x| x.to_string()).collect(); want.sort();
            match run(&scoped[n.0.as_str()], &format!("SELECT v FROM {}", quoted(n))).await {
                Ok(Ok(b)) => { let mut g: Vec<String> = crate::sf::rows(&b).into_iter().map(|mut r| r.remove(0)).collect(); g.sort(); if g != want { return ctx.violation(&format!("{sig}/rows"), &story(format!("{n:?}: {g:?}, expected {want:?}"))) } }
                Ok(Err(e)) | Err(e) => return ctx.violation(&format!("{sig}/unreadable"), &story(format!("{n:?}: {e}"))),
            }
            ctx.count("tables_read", 1);
        }
        // objects: those of live tables that were there are, but for what a vacuum of the table removes
        let objs = objects(&spy).await;
        for (n, t) in &model {
            if before.get(n).map_or(true, |b| b.uuid != t.uuid) || vacuumed.as_ref() == Some(n) { continue }
            let lost: Vec<&String> = objects_before.get(&t.uuid).into_iter().flatten().filter(|o| !objs.get(&t.uuid).map_or(false, |s| s.contains(*o))).collect();
            if !lost.is_empty() { return ctx.violation(&format!("{sig}/objects-of-another-table"), &story(format!("{n:?} lost {lost:?}"))) }
        }
        // a dropped table's objects are gone, unless the store failed
        for (n, t) in &before {
            if model.values().any(|x| x.uuid == t.uuid) { continue }
            if hit { strays.insert(t.uuid.clone()); }
            else if objs.contains_key(&t.uuid) { return ctx.violation(&format!("{sig}/objects-left"), &story(format!("{n:?} left {:?}", objs[&t.uuid]))) }
        }
        // the entries of dropped tables
        let now = entries(&sf).await;
        if let Some(which) = clean {
            for (id, e) in gone.iter_mut() {
                let mine = which.as_ref().map_or(true, |d| *d == e.db) && e.status != "FAILED";
                match now.get(id) {
                    None => {
                        if !mine { return ctx.violation(&format!("{sig}/entry-of-another-removed"), &story(id.clone())) }
                        if objs.contains_key(id) { return ctx.violation(&format!("{sig}/forgotten-with-objects-left"), &story(format!("{id}: {:?}", objs[id]))) }
                        e.status = "DONE".into();
                        ctx.count("entries_cleaned", 1);
                    }
                    Some((s, _)) => {
                        if !mine { if *s != e.status { return ctx.violation(&format!("{sig}/status-of-another"), &story(format!("{id}: {s}, was {}", e.status))) } }
                        else if !hit { return ctx.violation(&format!("{sig}/not-cleaned"), &story(format!("{id} still {s}"))) }
                        else if trigger || fault == "put" || fault == "copy" { e.status = s.clone(); e.objects = objs.get(id).cloned().unwrap_or_default() }
                        else {
                            let want = if e.status == "PENDING" { "RETRY" } else { "FAILED" };
                            // which of the entries met a failure that happens only once is not known
                            if *s != want && !(fault == "delete-2" && *s == e.status) { return ctx.violation(&format!("{sig}/status-{}-to-{s}", e.status), &story(format!("{id}: expected {want}"))) }
                            e.status = s.clone();
                        }
                    }
                }
            }
            gone.retain(|_, e| e.status != "DONE");
        } else {
            for (id, e) in &gone { let kept = objs.get(id).cloned().unwrap_or_default(); if now.get(id).map(|x| &x.0) != Some(&e.status) || (e.status == "PENDING" && kept != e.objects) { return ctx.violation(&format!("{sig}/entry-changed"), &story(id.clone())) } }
        }
        for id in now.keys() { if !gone.contains_key(id) { return ctx.violation(&format!("{sig}/entry-from-nowhere"), &story(id.clone())) } }
        // nothing else is in the store
        for id in objs.keys() {
            if !(model.values().any(|t| t.uuid == *id) || gone.contains_key(id) || strays.contains(id) || hit) { return ctx.violation(&format!("{sig}/unknown-objects"), &story(id.clone())) }
            if hit && !model.values().any(|t| t.uuid == *id) && !gone.contains_key(id) { strays.insert(id.clone()); }
        }
        if let Some(n) = vacuumed { if !hit && matches!(out, Ok(Ok(_))) {
            // files that the table's current version does not need are gone
            let t = &model[&n];
            let live: BTreeSet<String> = match scoped[n.0.as_str()].try_get_delta_table(datafusion::sql::TableReference::full(n.0.clone(), n.1.clone(), n.2.clone())).await {
                Ok(mut d) => { d.load().await.unwrap(); d.snapshot().unwrap().file_actions().unwrap().iter().map(|a| a.path.clone()).collect() }
                Err(e) => return ctx.violation("vacuum/unloadable", &story(e.to_string())),
            };
            let there: BTreeSet<String> = objs[&t.uuid].iter().filter(|p| p.ends_with(".parquet") && !p.contains("_delta_log")).cloned().collect();
            if !live.is_subset(&there) { return ctx.violation("vacuum/live-file-removed", &story(format!("{:?}", live.difference(&there).collect::<Vec<_>>()))) }
            ctx.count("files_vacuumed", objects_before[&t.uuid].len().saturating_sub(objs[&t.uuid].len()) as u64);
        } }
    }
}

pub fn c53(ctx: &Ctx) {
    ctx.rule("one evaluation = one statement or clean-up after which every live table was read, every object accounted for, and the entries of dropped tables compared with the model; distinct by (kind, fault, outcome)");
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("drops");
        for _ in 0..ctx.n(45, 3000) { if ctx.out_of_time() { break } history(ctx, &mut r).await }
    });
}
