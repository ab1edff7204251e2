//! C01-C08: the SQLite-backed metadata catalogue.
use super::model::*;
use crate::repository::interface::*;
use crate::repository::sqlite::SqliteRepository;
use arrow_schema::{DataType, Field, Schema};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use sfv::{chance, hash_of, pick, Ctx};
use sqlx::sqlite::SqliteJournalMode;
use sqlx::{Executor, Row};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uuid::Uuid;

pub fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("sfv").tempdir().expect("scratch directory")
}
fn rt(threads: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
}
async fn open(path: &Path) -> Result<SqliteRepository, sqlx::Error> {
    SqliteRepository::try_new(path.to_string_lossy().to_string(), SqliteJournalMode::Wal).await
}
fn all_names() -> Vec<String> {
    NAMES.iter().map(|s| s.to_string()).collect()
}

#[derive(Clone, Debug)]
struct Event {
    client: usize,
    op: Op,
    res: Res,
    call: u64,
    ret: u64,
}

/// Wing & Gong search with memoisation. Ok(true): linearizable; Ok(false): not; Err: gave up.
fn linearizable(init: &Model, h: &[Event], limit: u64) -> Result<Option<Model>, ()> {
    assert!(h.len() <= 64);
    let mut memo: HashSet<(u64, u64)> = HashSet::new();
    let mut steps = 0u64;
    fn go(m: &Model, h: &[Event], done: u64, memo: &mut HashSet<(u64, u64)>, steps: &mut u64, limit: u64) -> Result<Option<Model>, ()> {
        if done.count_ones() as usize == h.len() {
            return Ok(Some(m.clone()));
        }
        if !memo.insert((done, sfv::hash_of(m))) {
            return Ok(None);
        }
        *steps += 1;
        if *steps > limit {
            return Err(());
        }
        let first_ret = h.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if done & (1 << i) != 0 || e.call > first_ret {
                continue;
            }
            if let Some(m2) = m.step(&e.op, &e.res) {
                if let Some(r) = go(&m2, h, done | (1 << i), memo, steps, limit)? {
                    return Ok(Some(r));
                }
            }
        }
        Ok(None)
    }
    go(init, h, 0, &mut memo, &mut steps, limit)
}

fn history_text(h: &[Event]) -> String {
    let mut v: Vec<&Event> = h.iter().collect();
    v.sort_by_key(|e| e.call);
    v.iter().map(|e| format!("[{}..{}] client {} {:?} -> {:?}", e.call, e.ret, e.client, e.op, e.res)).collect::<Vec<_>>().join("\n")
}

/// smallest prefix (by return order) that already fails, for the report; and the op kind that fails
fn blame(init: &Model, h: &[Event]) -> (String, Vec<Event>) {
    let mut v = h.to_vec();
    v.sort_by_key(|e| e.ret);
    for n in 1..=v.len() {
        // operations still open at the cut are left out unless they were called before it
        let cut = v[n - 1].ret;
        let sub: Vec<Event> = v.iter().filter(|e| e.call <= cut).cloned().collect();
        if let Ok(None) = linearizable(init, &sub, 200_000) {
            return (kind(&v[n - 1].op).to_string(), sub);
        }
    }
    ("history".into(), v)
}

async fn concurrent_round(ctx: &Ctx, n: u64, p: Profile) {
    let mut r = ctx.rng_n("conc", n);
    let dir = scratch();
    let path = dir.path().join("c.sqlite");
    let nrepos = *pick(&mut r, &[1usize, 2, 2, 3]);
    let nclients = r.gen_range(2..=4usize).max(nrepos);
    let mut repos = vec![];
    for _ in 0..nrepos {
        match open(&path).await {
            Ok(x) => repos.push(Arc::new(x)),
            Err(e) => return ctx.inconclusive(format!("cannot open catalog: {e}")),
        }
    }
    let few = r.gen_range(2..=5);
    let known = Arc::new(Mutex::new(Known::default()));
    let mut model = Model::default();
    // a sequential prologue so that there is something to contend for
    for _ in 0..r.gen_range(0..14) {
        let op = { gen_op(&mut r, &known.lock().unwrap(), p, few, false) };
        let res = run(repos[0].as_ref(), &op).await;
        known.lock().unwrap().learn(&op, &res);
        match model.step(&op, &res) {
            Some(m) => model = m,
            None => {
                ctx.violation(&format!("sequential {} gives {}", kind(&op), res_kind(&res)), format!("in state {model:?}\n{op:?} -> {res:?}"));
                return;
            }
        }
    }
    for segment in 0..3 {
        let clock = Arc::new(AtomicU64::new(1));
        let mut tasks = vec![];
        let per = 28 / nclients;
        for c in 0..nclients {
            let repo = repos[c % nrepos].clone();
            let clock = clock.clone();
            let known = known.clone();
            let mut r = StdRng::seed_from_u64(r.gen());
            tasks.push(tokio::spawn(async move {
                let mut out = vec![];
                for _ in 0..per {
                    let op = { gen_op(&mut r, &known.lock().unwrap(), p, few, true) };
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let res = run(repo.as_ref(), &op).await;
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    known.lock().unwrap().learn(&op, &res);
                    out.push(Event { client: c, op, res, call, ret });
                    match r.gen_range(0..4) {
                        0 => tokio::task::yield_now().await,
                        1 => tokio::time::sleep(Duration::from_micros(r.gen_range(0..400))).await,
                        _ => {}
                    }
                }
                out
            }));
        }
        let mut h = vec![];
        for t in tasks {
            match t.await {
                Ok(x) => h.extend(x),
                Err(e) => {
                    ctx.violation("catalog call panicked", format!("{e} {}", sfv::last_panic()));
                    return;
                }
            }
        }
        let overlaps = h.iter().enumerate().map(|(i, a)| h[i + 1..].iter().filter(|b| a.call < b.ret && b.call < a.ret && a.client != b.client).count()).sum::<usize>();
        ctx.count("operations", h.len() as u64);
        ctx.count("overlapping pairs", overlaps as u64);
        for e in &h {
            ctx.seen("operation/result kinds", &(kind(&e.op), res_kind(&e.res)));
            if e.res == Res::Busy {
                ctx.count("busy results", 1);
            }
        }
        let mut order: Vec<_> = h.iter().map(|e| (e.ret, e.client, kind(&e.op), res_kind(&e.res))).collect();
        order.sort();
        let sig: Vec<_> = order.iter().map(|x| (x.1, x.2, x.3)).collect();
        ctx.eval(&sig, overlaps > 0);
        match linearizable(&model, &h, 400_000) {
            Ok(Some(_)) => {}
            Ok(None) => {
                let (k, sub) = blame(&model, &h);
                ctx.violation(&format!("not linearizable at {k}"), format!("start {:?}\n{}", model, history_text(&sub)));
                return;
            }
            Err(()) => ctx.count("histories given up", 1),
        }
        // the next segment starts from the real state: read it back at a quiet point and find the matching model state
        match final_model(repos[0].as_ref(), &model, &h).await {
            Some(m) => model = m,
            None => {
                ctx.violation("contents after quiescence match no order of the history", format!("start {model:?}\n{}", history_text(&h)));
                return;
            }
        }
        if segment == 0 && n < 2 {
            ctx.sample(serde_json::json!({"repositories": nrepos, "clients": nclients, "history": history_text(&h[..h.len().min(8)])}));
        }
    }
}

/// The history followed by a full read must be linearizable too; gives the state reached.
async fn final_model(repo: &dyn Repository, init: &Model, h: &[Event]) -> Option<Model> {
    let mut ext = h.to_vec();
    let mut t = h.iter().map(|e| e.ret).max().unwrap_or(0) + 1;
    let mut dbs = BTreeSet::new();
    for n in NAMES {
        for op in [Op::GetDb(n.to_string()), Op::List(n.to_string()), Op::Versions(n.to_string(), None)] {
            let res = run(repo, &op).await;
            match &res {
                Res::NotFound => break,
                Res::Rec(i, _, _) => {
                    dbs.insert(*i);
                }
                _ => {}
            }
            if ext.len() < 60 {
                ext.push(Event { client: 99, op, res, call: t, ret: t + 1 });
                t += 2;
            }
        }
    }
    for d in dbs {
        let op = Op::Fns(d);
        let res = run(repo, &op).await;
        if ext.len() < 64 {
            ext.push(Event { client: 99, op, res, call: t, ret: t + 1 });
            t += 2;
        }
    }
    match linearizable(init, &ext, 400_000) {
        Ok(m) => m,
        Err(()) => Some(init.clone()).filter(|_| false),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("one evaluation = one concurrent history of up to 28 catalogue calls by 2-4 clients over 1-3 connections to one file, checked against the sequential model (Wing-Gong); non-trivial when calls of different clients overlapped; distinct by completion order of (client, operation, result kind)");
    ctx.assume("a call that reports a lock timeout is taken to have had no effect");
    sequential(ctx, Profile::General, ctx.n(12, 80), 120);
    let rt = rt(4);
    for n in 0..ctx.n(160, 6000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(concurrent_round(ctx, n, Profile::General));
    }
    if ctx.get_count("histories given up") > ctx.get_count("operations") / 280 + 2 {
        ctx.inconclusive("too many histories could not be decided");
    }
}

/// long random sequential scripts against the model with a full comparison after every change
fn sequential(ctx: &Ctx, p: Profile, rounds: usize, len: usize) {
    let rt = rt(2);
    for n in 0..rounds as u64 {
        if ctx.used(0.5) {
            break;
        }
        rt.block_on(async {
            let mut r = ctx.rng_n("seq", n);
            let dir = scratch();
            let path = dir.path().join("c.sqlite");
            let mut repo = match open(&path).await {
                Ok(r) => r,
                Err(e) => return ctx.inconclusive(format!("cannot open catalog: {e}")),
            };
            let few = r.gen_range(2..=NAMES.len());
            let mut known = Known::default();
            let mut m = Model::default();
            let mut trace: Vec<String> = vec![];
            for i in 0..len {
                let op = gen_op(&mut r, &known, p, few, true);
                let res = run(&repo, &op).await;
                known.learn(&op, &res);
                ctx.count("sequential operations", 1);
                ctx.seen("sequential operation/result kinds", &(kind(&op), res_kind(&res)));
                trace.push(format!("{op:?} -> {res:?}"));
                match m.step(&op, &res) {
                    Some(x) => {
                        if is_write(&op) {
                            ctx.eval(&(sfv::hash_of(&m), sfv::hash_of(&op)), true);
                        }
                        m = x
                    }
                    None => {
                        ctx.violation(&format!("sequential {} gives {}", kind(&op), res_kind(&res)), format!("seed {} script {n} step {i}; state {m:?}\n{}", ctx.seed, trace[trace.len().saturating_sub(12)..].join("\n")));
                        return;
                    }
                }
                if is_write(&op) {
                    match real_view(&repo, &all_names()).await {
                        Ok(v) if v == m.view() => {}
                        Ok(v) => {
                            let want = m.view();
                            let missing: Vec<_> = want.iter().filter(|x| !v.contains(x)).take(5).collect();
                            let extra: Vec<_> = v.iter().filter(|x| !want.contains(x)).take(5).collect();
                            ctx.violation(&format!("contents wrong after {} ({})", kind(&op), res_kind(&res)), format!("missing {missing:?} extra {extra:?}\n{}", trace[trace.len().saturating_sub(12)..].join("\n")));
                            return;
                        }
                        Err(e) => {
                            ctx.violation("listing fails", e);
                            return;
                        }
                    }
                }
                if chance(&mut r, 0.03) {
                    repo.executor.close().await;
                    repo = match open(&path).await {
                        Ok(r) => r,
                        Err(e) => {
                            ctx.violation("cannot reopen catalog", e.to_string());
                            return;
                        }
                    };
                    ctx.count("reopens", 1);
                }
            }
            if n == 0 {
                ctx.sample(serde_json::json!({"script": trace[..trace.len().min(10)]}));
            }
        });
    }
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("one evaluation = one change in a random script over several tables (record version, prune, rename, move, drop, create), with version and column listings compared to the model after it, or one concurrent history of such calls; distinct by (state, change) or by completion order");
    ctx.assume("the clock does not go backwards between versions of a table");
    sequential(ctx, Profile::Versions, ctx.n(25, 300), 150);
    let rt = rt(4);
    version_times(ctx, &rt);
    for n in 0..ctx.n(120, 4000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(concurrent_round(ctx, n + 10_000, Profile::Versions));
    }
}

/// drop lists longer than anybody writes by hand
fn long_lists(ctx: &Ctx, rt: &tokio::runtime::Runtime) {
    for (k, n) in [5usize, 9, 17, 33, 65, 130].into_iter().enumerate() {
        rt.block_on(async {
            let mut r = ctx.rng_n("long", k as u64);
            let dir = scratch();
            let repo = match open(&dir.path().join("c.sqlite")).await { Ok(r) => r, Err(e) => return ctx.inconclusive(e.to_string()) };
            let (Ok(a), Ok(b)) = (repo.create_database("a").await, repo.create_database("b").await) else { return ctx.violation("sequential create_database fails", "long lists") };
            let mut names: Vec<String> = (0..n + 3).map(|i| format!("f{i}")).collect();
            for f in &names {
                for d in [a, b] {
                    if let Err(e) = repo.create_function(d, f, false, &details(k as u8)).await { return ctx.violation("sequential create_function fails", format!("{f}: {e}")) }
                }
            }
            for i in (1..names.len()).rev() { names.swap(i, r.gen_range(0..=i)) }
            let live = |d| { let repo = &repo; async move { let mut v: Vec<String> = repo.get_all_functions_in_database(d).await.unwrap_or_default().into_iter().map(|f| f.name).collect(); v.sort(); v } };
            let mut all = names.clone();
            all.sort();
            // one of them missing: nothing goes
            let mut with_missing = names[..n].to_vec();
            with_missing.insert(r.gen_range(0..=n), "missing".into());
            ctx.eval(&("long list with a missing name", n), true);
            let out = repo.drop_function(a, &with_missing).await;
            let left = live(a).await;
            let mut want = names[n..].to_vec();
            want.sort();
            ctx.check(left == if out.is_err() { all.clone() } else { want.clone() }, "long drop list with a missing name", || format!("{n} names: {out:?}, {} of {} functions left", left.len(), all.len()));
            if out.is_ok() {
                for f in &names[..n] {
                    if let Err(e) = repo.create_function(a, f, false, &details(k as u8)).await { return ctx.violation("sequential create_function fails", format!("{f}: {e}")) }
                }
            }
            ctx.eval(&("long list", n), true);
            let out = repo.drop_function(a, &names[..n].to_vec()).await;
            let (left, other) = (live(a).await, live(b).await);
            ctx.check(out.is_ok() && left == want && other == all, "long drop list", || format!("{n} names: {out:?}, left {left:?}, wanted {want:?}; {} of {} in the other database", other.len(), all.len()));
        });
    }
}

/// the times of versions are those at which they were recorded
fn version_times(ctx: &Ctx, rt: &tokio::runtime::Runtime) {
    rt.block_on(async {
        let dir = scratch();
        let repo = match open(&dir.path().join("c.sqlite")).await { Ok(r) => r, Err(e) => return ctx.inconclusive(e.to_string()) };
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let (Ok(d), u) = (repo.create_database("a").await, Uuid::from_u128(7)) else { return ctx.violation("sequential create_database fails", "times") };
        let Ok(c) = repo.create_collection(d, "s").await else { return ctx.violation("sequential create_collection fails", "times") };
        let mut spans = HashMap::new();
        for v in 0..4i64 {
            let before = now();
            let id = if v == 0 { repo.create_table(c, "t", &schema(1), u).await.map(|x| x.1) } else { repo.create_new_version(u, v).await };
            let Ok(id) = id else { return ctx.violation("sequential create_new_version fails", format!("version {v}: {id:?}")) };
            spans.insert(id, (before, now()));
            tokio::time::sleep(std::time::Duration::from_millis(700)).await;
        }
        match repo.get_all_versions("a", None).await {
            Err(e) => ctx.violation("listing fails", e.to_string()),
            Ok(rows) => for r in rows {
                ctx.eval(&("time", r.version), true);
                let (a, b) = spans.get(&r.table_version_id).copied().unwrap_or((0, 0));
                ctx.check(a <= r.creation_time && r.creation_time <= b, "version with a wrong time", || format!("version {} was recorded between {a} and {b}, listed as of {}", r.version, r.creation_time));
            },
        }
    });
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("one evaluation = one create/replace/drop in a random script over several databases, with all function listings compared to the model after it, or a concurrent history; distinct by (state, change)");
    sequential(ctx, Profile::Functions, ctx.n(25, 300), 150);
    let rt = rt(4);
    long_lists(ctx, &rt);
    for n in 0..ctx.n(60, 2000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(concurrent_round(ctx, n + 20_000, Profile::Functions));
    }
}

// ---------------------------------------------------------------- C02
use libsqlite3_sys as ffi;

/// What happens at the n-th storage event of the connection under test.
struct Hook {
    count: AtomicU64,
    fire_at: AtomicU64,
    only: Mutex<&'static str>,
    action: Mutex<Box<dyn FnMut(u64, &'static str) + Send>>,
}
impl Hook {
    fn event(&self, what: &'static str) {
        let only = *self.only.lock().unwrap();
        if !only.is_empty() && only != what {
            return;
        }
        let n = self.count.fetch_add(1, Ordering::SeqCst) + 1;
        let at = self.fire_at.load(Ordering::SeqCst);
        if at == 0 || at == n {
            (self.action.lock().unwrap())(n, what)
        }
    }
}
const EVENTS: [&str; 4] = ["", "row", "before commit", "after commit"];
unsafe extern "C" fn on_update(p: *mut std::ffi::c_void, _op: i32, _db: *const i8, _t: *const i8, _row: i64) {
    (*(p as *const Hook)).event("row");
}
unsafe extern "C" fn on_commit(p: *mut std::ffi::c_void) -> i32 {
    (*(p as *const Hook)).event("before commit");
    0
}
unsafe extern "C" fn on_wal(p: *mut std::ffi::c_void, _db: *mut ffi::sqlite3, _n: *const i8, _pages: i32) -> i32 {
    (*(p as *const Hook)).event("after commit");
    0
}
/// the hooks live as long as the process
async fn install(repo: &SqliteRepository, fire_at: u64, only: &'static str, action: Box<dyn FnMut(u64, &'static str) + Send>) -> Result<&'static Hook, sqlx::Error> {
    let hook: &'static Hook = Box::leak(Box::new(Hook { count: AtomicU64::new(0), fire_at: AtomicU64::new(fire_at), only: Mutex::new(only), action: Mutex::new(action) }));
    let mut conn = repo.executor.acquire().await?;
    let mut h = conn.lock_handle().await?;
    let raw = h.as_raw_handle().as_ptr() as *mut ffi::sqlite3;
    let p = hook as *const Hook as *mut std::ffi::c_void;
    unsafe {
        ffi::sqlite3_update_hook(raw, Some(on_update), p);
        ffi::sqlite3_commit_hook(raw, Some(on_commit), p);
        ffi::sqlite3_wal_hook(raw, Some(on_wal), p);
    }
    drop(h);
    Ok(hook)
}

fn c02_script(seed: u64, len: usize) -> (StdRng, usize) {
    (StdRng::seed_from_u64(seed), len)
}
fn c02_next(r: &mut StdRng, k: &Known) -> Op {
    let mut op = gen_op(r, k, Profile::General, 4, false);
    if let Op::CreateTable(_, _, s, _) = &mut op {
        if *s == 3 && chance(r, 0.3) {
            *s = 6
        }
    }
    op
}

/// child: applies a script to the file, logging each call before and after; may kill itself at a storage event
pub fn child_crash(args: &[String]) -> i32 {
    use std::io::Write;
    let path = PathBuf::from(&args[0]);
    let seed: u64 = args[1].parse().unwrap();
    let len: usize = args[2].parse().unwrap();
    let fire_at: u64 = args[3].parse().unwrap();
    let only: usize = args[4].parse().unwrap();
    let known: Known = {
        let mut s = String::new();
        use std::io::Read;
        std::io::stdin().read_to_string(&mut s).unwrap();
        let v: serde_json::Value = serde_json::from_str(&s).unwrap();
        let ids = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>();
        Known { dbs: ids("dbs"), cols: ids("cols"), tables: ids("tables"), uuids: v["uuids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect() }
    };
    let rt = rt(2);
    rt.block_on(async move {
        let repo = open(&path).await.unwrap();
        if fire_at > 0 {
            install(&repo, fire_at, EVENTS[only], Box::new(|_, _| unsafe {
                libc_kill();
            })).await.unwrap();
        }
        let (mut r, len) = c02_script(seed, len);
        let mut known = known;
        for i in 0..len {
            let op = c02_next(&mut r, &known);
            // results are compared by the parent, which generates the same operations
            println!("B {i}");
            std::io::stdout().flush().unwrap();
            let res = run(&repo, &op).await;
            known.learn(&op, &res);
            let t = match &res {
                Res::Id(a) => format!("id {a}"),
                Res::Ids(a, b) => format!("ids {a} {b}"),
                Res::Unit => "unit".into(),
                Res::N(n) => format!("n {n}"),
                Res::Unique => "unique".into(),
                Res::Fk => "fk".into(),
                Res::NotFound => "notfound".into(),
                Res::Busy => "busy".into(),
                o => format!("other {}", format!("{o:?}").replace('\n', " ")),
            };
            println!("E {i} {t}");
            std::io::stdout().flush().unwrap();
        }
    });
    0
}
unsafe fn libc_kill() {
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    kill(std::process::id() as i32, 9);
    loop {
        std::thread::sleep(Duration::from_secs(1));
    }
}

fn parse_res(t: &str) -> Res {
    let w: Vec<&str> = t.split(' ').collect();
    match w[0] {
        "id" => Res::Id(w[1].parse().unwrap()),
        "ids" => Res::Ids(w[1].parse().unwrap(), w[2].parse().unwrap()),
        "unit" => Res::Unit,
        "n" => Res::N(w[1].parse().unwrap()),
        "unique" => Res::Unique,
        "fk" => Res::Fk,
        "notfound" => Res::NotFound,
        "busy" => Res::Busy,
        _ => Res::Other(t.to_string()),
    }
}

/// all results the in-flight operation may have had, as resulting states
fn possible_after(m: &Model, op: &Op) -> Vec<Model> {
    let fresh_t = m.tables.keys().max().copied().unwrap_or(0) + 1_000_000;
    let fresh_v = m.versions.keys().max().copied().unwrap_or(0) + 1_000_000;
    let mut out = vec![];
    let mut tries = vec![Res::Id(fresh_t), Res::Ids(fresh_t, fresh_v), Res::Id(fresh_v), Res::Unit];
    if let Op::CreateFn(..) = op {
        tries.extend(m.funcs.keys().map(|i| Res::Id(*i)));
    }
    if let Op::Prune(_) = op {
        tries.extend((0..=m.versions.len() as u64).map(Res::N));
    }
    for r in tries {
        if let Some(x) = m.step(op, &r) {
            out.push(x);
        }
    }
    out
}

fn crash_rounds(ctx: &Ctx) {
    let rt = rt(2);
    let campaigns = ctx.n(60, 3000) as u64;
    for n in 0..campaigns {
        if ctx.used(0.55) {
            break;
        }
        let mut r = ctx.rng_n("crash", n);
        let dir = scratch();
        let path = dir.path().join("c.sqlite");
        let mut model = Model::default();
        let mut known = Known::default();
        let mut log: Vec<String> = vec![];
        for round in 0..5 {
            let seed: u64 = r.gen();
            let len = r.gen_range(6..30usize);
            // either at a chosen storage event or at an arbitrary moment
            let (fire_at, only): (u64, usize) = match r.gen_range(0..10) {
                0 => (0, 0),
                1..=3 => (r.gen_range(1..150), 1),
                4..=6 => (r.gen_range(1..len as u64 + 2), 2),
                _ => (r.gen_range(1..len as u64 + 2), 3),
            };
            let known_json = serde_json::json!({"dbs": known.dbs, "cols": known.cols, "tables": known.tables, "uuids": known.uuids.iter().map(|u| u.to_string()).collect::<Vec<_>>()});
            let timeout = if fire_at > 0 { Duration::from_secs(60) } else { Duration::from_millis(r.gen_range(20..400)) };
            let out = match sfv::run_child(&["--child-crash", path.to_str().unwrap(), &seed.to_string(), &len.to_string(), &fire_at.to_string(), &only.to_string()], known_json.to_string().as_bytes(), timeout) {
                Ok(o) => o,
                Err(e) => return ctx.inconclusive(format!("child: {e}")),
            };
            if fire_at > 0 && out.timed_out {
                return ctx.inconclusive("child did not finish in 60 s");
            }
            if out.signal.is_none() && out.code != Some(0) {
                return ctx.inconclusive(format!("child ended with {:?}: {}", out.code, sfv::trunc(&out.stderr, 500)));
            }
            ctx.count(if out.signal.is_some() { "kills" } else { "completed scripts" }, 1);
            if out.signal.is_some() {
                ctx.seen("kill points (event kind, n)", &(only, fire_at));
                ctx.count(&format!("kills at {}", if fire_at == 0 { "an arbitrary moment" } else { EVENTS[only] }), 1);
            }
            // replay the child's script against the model
            let (mut cr, _) = c02_script(seed, len);
            let lines: Vec<&str> = out.stdout.lines().collect();
            let mut pending: Option<Op> = None;
            let mut li = 0;
            while li < lines.len() {
                if !lines[li].starts_with("B ") {
                    li += 1;
                    continue;
                }
                let op = c02_next(&mut cr, &known);
                match lines.get(li + 1).and_then(|l| l.strip_prefix("E ")).and_then(|l| l.split_once(' ')) {
                    Some((_, t)) => {
                        let res = parse_res(t);
                        known.learn(&op, &res);
                        log.push(format!("{op:?} -> {res:?}"));
                        ctx.count("acknowledged changes", 1);
                        match model.step(&op, &res) {
                            Some(m) => model = m,
                            None => {
                                ctx.violation(&format!("crash script: {} gives {}", kind(&op), res_kind(&res)), log[log.len().saturating_sub(10)..].join("\n"));
                                return;
                            }
                        }
                        li += 2;
                    }
                    None => {
                        log.push(format!("{op:?} -> killed in flight (event {fire_at})"));
                        pending = Some(op);
                        li += 1;
                    }
                }
            }
            // reopen
            let path2 = path.clone();
            let view = rt.block_on(async {
                let repo = open(&path2).await.map_err(|e| e.to_string())?;
                let v = real_view(&repo, &all_names()).await;
                repo.executor.close().await;
                v
            });
            let view = match view {
                Ok(v) => v,
                Err(e) => {
                    ctx.violation("catalog unreadable after a kill", format!("{e}\n{}", log[log.len().saturating_sub(10)..].join("\n")));
                    return;
                }
            };
            let killed = out.signal.is_some();
            if killed {
                ctx.eval(&(pending.as_ref().map(kind), fire_at, model.view()), pending.is_some());
                ctx.seen("operation in flight when killed", &pending.as_ref().map(kind));
            }
            if killed {
                ctx.sample(serde_json::json!({"kill_at_storage_event": fire_at, "event_kind": EVENTS[only], "in_flight": format!("{pending:?}"), "log": log[log.len().saturating_sub(4)..]}));
            }
            if view == model.view() {
                if pending.is_some() {
                    ctx.count("in-flight change found not applied", 1);
                }
            } else if let Some(m) = pending.as_ref().and_then(|op| possible_after(&model, op).into_iter().find(|m| m.view() == view)) {
                ctx.count("in-flight change found applied", 1);
                let _ = m;
                break; // identifiers of the applied change are unknown: start a new file
            } else {
                let want = model.view();
                let missing: Vec<_> = want.iter().filter(|x| !view.contains(x)).take(4).collect();
                let extra: Vec<_> = view.iter().filter(|x| !want.contains(x)).take(4).collect();
                let sig = match (&pending, missing.is_empty()) {
                    (Some(p), true) => format!("killed {} is half applied", kind(p)),
                    _ => "acknowledged change lost or altered by a kill".into(),
                };
                ctx.violation(&sig, format!("campaign {n} round {round}: pending {pending:?}\nmissing {missing:?}\nextra {extra:?}\n{}", log[log.len().saturating_sub(10)..].join("\n")));
                return;
            }
        }
    }
}

/// a state with something of everything in it
async fn seeded_state(repo: &SqliteRepository, r: &mut StdRng) -> Option<(Model, Known)> {
    let mut m = Model::default();
    let mut k = Known::default();
    for _ in 0..r.gen_range(12..30) {
        let op = gen_op(r, &k, Profile::General, 5, false);
        if matches!(op, Op::DelDb(_)) {
            continue;
        }
        let res = run(repo, &op).await;
        k.learn(&op, &res);
        m = m.step(&op, &res)?;
    }
    Some((m, k))
}

/// every statement of a change is made to fail in turn (a trigger refuses the n-th row): the change must report an
/// error and leave nothing behind; and a second connection looks at every storage event of every change
fn faults_and_readers(ctx: &Ctx) {
    let rt = rt(4);
    for n in 0..ctx.n(60, 3000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(async {
            let mut r = ctx.rng_n("faults", n);
            let dir = scratch();
            let path = dir.path().join("c.sqlite");
            let (Ok(repo), Ok(reader)) = (open(&path).await, open(&path).await) else {
                return ctx.inconclusive("cannot open catalog");
            };
            let Some((mut model, mut known)) = seeded_state(&repo, &mut r).await else {
                // judged by C01
                ctx.count("setup scripts rejected by the model", 1);
                return;
            };
            // views seen by the other connection during a change
            let seen: Arc<Mutex<Vec<(&'static str, Result<Vec<String>, String>)>>> = Default::default();
            let active = Arc::new(AtomicU64::new(0));
            let (tx, rx) = std::sync::mpsc::channel::<(&'static str, std::sync::mpsc::Sender<()>)>();
            let handle = tokio::runtime::Handle::current();
            let seen2 = seen.clone();
            let reader = Arc::new(reader);
            let reader2 = reader.clone();
            let th = std::thread::spawn(move || {
                while let Ok((what, ack)) = rx.recv() {
                    let v = handle.block_on(real_view(reader2.as_ref(), &all_names()));
                    seen2.lock().unwrap().push((what, v));
                    let _ = ack.send(());
                }
            });
            let active2 = active.clone();
            let mut row_events = 0u64;
            let tx = Mutex::new(tx);
            let hook = install(&repo, 0, "", Box::new(move |_, what| {
                if active2.load(Ordering::SeqCst) == 0 {
                    return;
                }
                if what == "row" {
                    row_events += 1;
                    if row_events % 5 != 1 {
                        return;
                    }
                }
                let (a, b) = std::sync::mpsc::channel();
                if tx.lock().unwrap().send((what, a)).is_ok() {
                    let _ = b.recv_timeout(Duration::from_secs(20));
                }
            })).await;
            let Ok(hook) = hook else { return ctx.inconclusive("cannot install hooks") };
            for _ in 0..10 {
                let op = gen_op(&mut r, &known, Profile::General, 4, false);
                // 1. fail it at each table it touches
                for table in ["database", "collection", "table", "table_version", "table_column", "function"] {
                    for (event, row) in [("INSERT", "NEW"), ("UPDATE", "NEW"), ("DELETE", "OLD")] {
                        // only what the change could touch
                        let relevant = match &op {
                            Op::DelDb(_) | Op::DelCol(_) | Op::DelTable(_) | Op::Prune(_) | Op::DropFn(..) => event == "DELETE",
                            Op::Rename(..) => event == "UPDATE",
                            Op::CreateFn(..) => event != "DELETE" && table == "function",
                            Op::CreateDb(_) | Op::CreateCol(..) => event == "INSERT" && matches!(table, "database" | "collection"),
                            _ => event == "INSERT" && table.starts_with("table"),
                        };
                        if !relevant {
                            continue;
                        }
                        // raise on the first row or on a later one
                        let nth = r.gen_range(0..3);
                        let cond = match event {
                            "INSERT" => format!("(SELECT count(*) FROM \"{table}\") >= (SELECT count FROM sfv_base) + {nth}"),
                            "DELETE" => format!("(SELECT count(*) FROM \"{table}\") <= (SELECT count FROM sfv_base) - {nth}"),
                            _ => "1".into(),
                        };
                        let sql = format!("CREATE TABLE IF NOT EXISTS sfv_base(count INTEGER); DELETE FROM sfv_base; INSERT INTO sfv_base SELECT count(*) FROM \"{table}\"; CREATE TRIGGER sfv_fail BEFORE {event} ON \"{table}\" WHEN {cond} AND {row}.id IS NOT NULL BEGIN SELECT RAISE(ABORT, 'sfv: injected'); END;");
                        if let Err(e) = repo.executor.execute(sql.as_str()).await {
                            return ctx.inconclusive(format!("cannot inject: {e}"));
                        }
                        let res = run(&repo, &op).await;
                        let _ = repo.executor.execute("DROP TRIGGER IF EXISTS sfv_fail; DROP TABLE IF EXISTS sfv_base").await;
                        let fired = matches!(&res, Res::Other(t) if t.contains("sfv: injected"));
                        let view = match real_view(&repo, &all_names()).await {
                            Ok(v) => v,
                            Err(e) => {
                                ctx.violation("listing fails after a failed change", e);
                                return;
                            }
                        };
                        ctx.count("changes run with an injected failure", 1);
                        if fired {
                            ctx.count("injected failures that fired", 1);
                            ctx.eval(&(kind(&op), table, event, nth, model.view().len()), true);
                            ctx.seen("change/table/event failed", &(kind(&op), table, event));
                            if view != model.view() {
                                let want = model.view();
                                let extra: Vec<_> = view.iter().filter(|x| !want.contains(x)).take(4).collect();
                                let missing: Vec<_> = want.iter().filter(|x| !view.contains(x)).take(4).collect();
                                ctx.violation(&format!("failed {} leaves a trace", kind(&op)), format!("failure injected at {event} on {table} (row {nth}): {res:?}; missing {missing:?} extra {extra:?}\n{op:?}"));
                                return;
                            }
                        } else {
                            known.learn(&op, &res);
                            match model.step(&op, &res) {
                                Some(m) if m.view() == view => model = m,
                                _ => {
                                    ctx.violation(&format!("{} gives {} or wrong contents", kind(&op), res_kind(&res)), format!("{op:?} -> {res:?}"));
                                    return;
                                }
                            }
                        }
                    }
                }
                // 2. watch it from another connection
                let op = gen_op(&mut r, &known, Profile::General, 4, false);
                seen.lock().unwrap().clear();
                active.store(1, Ordering::SeqCst);
                let res = run(&repo, &op).await;
                active.store(0, Ordering::SeqCst);
                known.learn(&op, &res);
                let before = model.view();
                match model.step(&op, &res) {
                    Some(m) => model = m,
                    None => {
                        ctx.violation(&format!("{} gives {}", kind(&op), res_kind(&res)), format!("{op:?} -> {res:?}"));
                        return;
                    }
                }
                let after = model.view();
                let mut applied = false;
                for (what, v) in seen.lock().unwrap().iter() {
                    ctx.count(&format!("views by another connection at a '{what}' event"), 1);
                    match v {
                        Ok(v) => {
                            ctx.eval(&(kind(&op), *what, *v == before, *v == after, after.len()), before != after);
                            let is_after = *v == after;
                            if !is_after && (*v != before || applied) {
                                let extra: Vec<_> = v.iter().filter(|x| !after.contains(x)).take(4).collect();
                                let missing: Vec<_> = after.iter().filter(|x| !v.contains(x)).take(4).collect();
                                ctx.violation(&format!("{} observed half done", kind(&op)), format!("at '{what}' of {op:?}: compared with the finished change, missing {missing:?} extra {extra:?}"));
                                return;
                            }
                            applied |= is_after && before != after;
                        }
                        Err(e) if e.contains("locked") => ctx.count("reader lock timeouts", 1),
                        Err(e) => ctx.violation("reader fails during a change", e),
                    }
                }
            }
            ctx.count("storage events", hook.count.load(Ordering::SeqCst));
            repo.executor.close().await;
            drop(th);
        });
    }
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("one evaluation = a kill of the writing process (at the n-th row change, commit or post-commit event, or at an arbitrary moment) followed by reopening and full comparison; or one change with a failure injected at one of its statements; or one look by a second connection at a storage event inside a change. Non-trivial when a change was in flight / the failure fired / the change alters the contents");
    ctx.assume("process kill, not power loss: what SQLite handed to the operating system survives");
    wide(ctx);
    crash_rounds(ctx);
    faults_and_readers(ctx);
}

/// changes which fail, or strain limits, because of their input
fn wide(ctx: &Ctx) {
    let rt = rt(2);
    rt.block_on(async {
        let dir = scratch();
        let Ok(repo) = open(&dir.path().join("c.sqlite")).await else { return ctx.inconclusive("cannot open catalog") };
        let db = repo.create_database("a").await.unwrap();
        let col = repo.create_collection(db, "b").await.unwrap();
        for width in [1usize, 50, 999, 10_000, 10_923, 12_000, 33_000] {
            if !ctx.thorough && width > 12_000 {
                continue;
            }
            let s = Schema::new((0..width).map(|i| Field::new(format!("c{i}"), DataType::Int32, true)).collect::<Vec<_>>());
            let before = real_view(&repo, &all_names()).await.unwrap_or_default();
            let name = format!("w{width}");
            let res = repo.create_table(col, &name, &s, Uuid::from_u128(width as u128)).await;
            let after = real_view(&repo, &all_names()).await.unwrap_or_default();
            ctx.eval(&("wide", width), true);
            match res {
                Ok(_) => {
                    let cols = after.iter().filter(|l| l.starts_with(&format!("column \"a\".\"b\".\"{name}\""))).count();
                    ctx.check(cols == width, "wide table created without all its columns", || format!("{width} columns, {cols} listed"));
                }
                Err(e) => {
                    ctx.check(before == after, "failed create_table leaves a trace", || format!("{width} columns: {e}"));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C04
pub fn gen_type(r: &mut StdRng, depth: u32) -> DataType {
    use arrow_schema::{IntervalUnit, TimeUnit, UnionFields, UnionMode};
    let units = [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond];
    let top = if depth == 0 { 24 } else { 33 };
    match r.gen_range(0..top) {
        0 => DataType::Null,
        1 => DataType::Boolean,
        2 => DataType::Int8,
        3 => DataType::Int16,
        4 => DataType::Int32,
        5 => DataType::Int64,
        6 => DataType::UInt8,
        7 => DataType::UInt16,
        8 => DataType::UInt32,
        9 => DataType::UInt64,
        10 => DataType::Float16,
        11 => DataType::Float32,
        12 => DataType::Float64,
        13 => DataType::Timestamp(units[r.gen_range(0..4)].clone(), match r.gen_range(0..3) { 0 => None, 1 => Some("UTC".into()), _ => Some("+01:00".into()) }),
        14 => DataType::Date32,
        15 => DataType::Date64,
        16 => if chance(r, 0.5) { DataType::Time32(units[r.gen_range(0..2)].clone()) } else { DataType::Time64(units[r.gen_range(2..4)].clone()) },
        17 => DataType::Duration(units[r.gen_range(0..4)].clone()),
        18 => DataType::Interval([IntervalUnit::YearMonth, IntervalUnit::DayTime, IntervalUnit::MonthDayNano][r.gen_range(0..3)].clone()),
        19 => if chance(r, 0.5) { DataType::Binary } else { DataType::FixedSizeBinary(r.gen_range(0..40)) },
        20 => if chance(r, 0.5) { DataType::LargeBinary } else { DataType::BinaryView },
        21 => DataType::Utf8,
        22 => if chance(r, 0.5) { DataType::LargeUtf8 } else { DataType::Utf8View },
        23 => { let p = r.gen_range(1..=38); DataType::Decimal128(p, r.gen_range(-3..=p as i8)) }
        24 => DataType::Decimal256(r.gen_range(1..=76), r.gen_range(-5..=20)),
        25 => DataType::List(Arc::new(gen_field(r, depth - 1))),
        26 => DataType::LargeList(Arc::new(gen_field(r, depth - 1))),
        27 => DataType::FixedSizeList(Arc::new(gen_field(r, depth - 1)), r.gen_range(0..9)),
        28 | 29 => { let n = r.gen_range(0..4); DataType::Struct((0..n).map(|i| gen_field(r, depth - 1).with_name(format!("s{i}"))).collect()) }
        30 => DataType::Dictionary(Box::new([DataType::Int8, DataType::Int32, DataType::UInt16][r.gen_range(0..3)].clone()), Box::new(DataType::Utf8)),
        31 => DataType::Map(Arc::new(Field::new("entries", DataType::Struct(vec![Field::new("keys", DataType::Utf8, false), gen_field(r, 0).with_name("values")].into()), false)), chance(r, 0.5)),
        _ => DataType::Union(UnionFields::new(vec![0, 3], vec![gen_field(r, 0).with_name("u0"), gen_field(r, 0).with_name("u1")]), if chance(r, 0.5) { UnionMode::Dense } else { UnionMode::Sparse }),
    }
}
pub fn gen_name(r: &mut StdRng) -> String {
    let n = r.gen_range(0..10);
    let alphabet: Vec<char> = "abcXYZ019_ .'\"`;$%\\/-éß\u{1F980}\n\t".chars().collect();
    (0..n).map(|_| *pick(r, &alphabet)).collect()
}
pub fn gen_field(r: &mut StdRng, depth: u32) -> Field {
    let f = Field::new(gen_name(r), gen_type(r, depth), chance(r, 0.6));
    if chance(r, 0.2) {
        let n = r.gen_range(0..3);
        f.with_metadata((0..n).map(|_| (gen_name(r), gen_name(r))).collect())
    } else {
        f
    }
}

async fn columns_of(repo: &dyn Repository, db: &str) -> Result<HashMap<(String, String), Vec<(String, String)>>, String> {
    let mut out: HashMap<(String, String), Vec<(String, String)>> = HashMap::new();
    for row in repo.list_collections(db).await.map_err(|e| e.to_string())? {
        if let Some(t) = row.table_name {
            let e = out.entry((row.collection_name, t)).or_default();
            if let (Some(n), Some(ty)) = (row.column_name, row.column_type) {
                let f = decode_field(&ty).map_err(|e| format!("column {n:?} has unreadable definition {ty}: {e}"))?;
                e.push((n.clone(), format!("{:?}|{}", f.name(), canon_field(&f))));
            }
        }
    }
    out.values_mut().for_each(|v| v.sort());
    Ok(out)
}
fn want_columns(s: &Schema) -> Vec<(String, String)> {
    let mut v: Vec<_> = s.fields().iter().map(|f| (f.name().clone(), format!("{:?}|{}", f.name(), canon_field(f)))).collect();
    v.sort();
    v
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("one evaluation = one column definition stored and listed again after creation, after a rename or move, a new version, a prune, and after reopening; non-trivial when the type is nested, parametrised or carries metadata, or the name is not a plain identifier; distinct by definition");
    let rt = rt(2);
    for n in 0..ctx.n(40, 2000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(async {
            let mut r = ctx.rng_n("c04", n);
            let dir = scratch();
            let path = dir.path().join("c.sqlite");
            let Ok(mut repo) = open(&path).await else { return ctx.inconclusive("cannot open catalog") };
            let db = repo.create_database("db").await.unwrap();
            let cols = [repo.create_collection(db, "c0").await.unwrap(), repo.create_collection(db, "c1").await.unwrap()];
            let mut want: HashMap<(String, String), Vec<(String, String)>> = HashMap::new();
            let mut tables: Vec<(i64, Uuid, usize, String)> = vec![];
            for t in 0..r.gen_range(1..6) {
                let width = *pick(&mut r, &[0usize, 1, 3, 8, 20, 60]);
                let mut names = BTreeSet::new();
                let fields: Vec<Field> = (0..width).map(|_| gen_field(&mut r, 3)).filter(|f| names.insert(f.name().clone())).collect();
                let metadata = if chance(&mut r, 0.3) { HashMap::from([("k".to_string(), "v".to_string())]) } else { HashMap::new() };
                let s = Schema::new_with_metadata(fields, metadata);
                for f in s.fields() {
                    let plain = f.name().chars().all(|c| c.is_ascii_alphanumeric()) && !f.data_type().is_nested() && f.metadata().is_empty();
                    ctx.eval(&format!("{f:?}"), !plain);
                    ctx.seen("type shapes", &std::mem::discriminant(f.data_type()));
                    if n == 0 {
                        ctx.sample(serde_json::json!(format!("{f:?}")));
                    }
                }
                let name = format!("t{t}");
                let c = r.gen_range(0..2);
                let uuid = Uuid::from_u128(r.gen());
                match repo.create_table(cols[c], &name, &s, uuid).await {
                    Ok((id, _)) => {
                        want.insert((format!("c{c}"), name.clone()), want_columns(&s));
                        tables.push((id, uuid, c, name));
                    }
                    Err(e) => {
                        ctx.violation("valid schema refused", format!("{e}: {s:?}"));
                        return;
                    }
                }
                if !compare(ctx, &repo, &want, "create").await {
                    return;
                }
            }
            for step in 0..8 {
                let i = r.gen_range(0..tables.len());
                let what = match r.gen_range(0..5) {
                    0 => {
                        let to = r.gen_range(0..2);
                        let new = format!("r{step}");
                        let (id, _, c, old) = tables[i].clone();
                        if let Err(e) = repo.rename_table(id, &new, Some(cols[to])).await {
                            ctx.violation("rename refused", e.to_string());
                            return;
                        }
                        let v = want.remove(&(format!("c{c}"), old)).unwrap();
                        want.insert((format!("c{to}"), new.clone()), v);
                        tables[i].2 = to;
                        tables[i].3 = new;
                        "rename"
                    }
                    1 | 2 => {
                        if let Err(e) = repo.create_new_version(tables[i].1, step).await {
                            ctx.violation("new version refused", e.to_string());
                            return;
                        }
                        "new version"
                    }
                    3 => {
                        let _ = repo.delete_old_versions(tables[i].0).await;
                        "prune"
                    }
                    _ => {
                        repo.executor.close().await;
                        match open(&path).await {
                            Ok(x) => repo = x,
                            Err(e) => {
                                ctx.violation("cannot reopen", e.to_string());
                                return;
                            }
                        }
                        "reopen"
                    }
                };
                ctx.count(what, 1);
                if !compare(ctx, &repo, &want, what).await {
                    return;
                }
            }
        });
    }
    async fn compare(ctx: &Ctx, repo: &dyn Repository, want: &HashMap<(String, String), Vec<(String, String)>>, what: &str) -> bool {
        match columns_of(repo, "db").await {
            Err(e) => {
                ctx.violation(&format!("columns unreadable after {what}"), e);
                false
            }
            Ok(got) => {
                for (k, w) in want {
                    let g = got.get(k).cloned().unwrap_or_default();
                    if g != *w {
                        let d = w.iter().zip(g.iter()).find(|(a, b)| a != b);
                        ctx.violation(&format!("columns differ after {what}"), format!("table {k:?}: {} stored, {} listed, first difference {d:?}", w.len(), g.len()));
                        return false;
                    }
                }
                if got.len() != want.len() {
                    ctx.violation(&format!("tables differ after {what}"), format!("{:?} vs {:?}", got.keys(), want.keys()));
                    return false;
                }
                true
            }
        }
    }
    wide(ctx);
}

// ---------------------------------------------------------------- C06
/// the whole contents of the file, table by table
async fn dump(path: &Path) -> Result<Vec<String>, sqlx::Error> {
    use sqlx::sqlite::{SqliteConnectOptions, SqlitePoolOptions};
    let opts = SqliteConnectOptions::new().filename(path).create_if_missing(false);
    let pool = SqlitePoolOptions::new().max_connections(1).connect_with(opts).await?;
    let mut out = vec![];
    let tables: Vec<String> = sqlx::query("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetch_all(&pool).await?.iter().map(|r| r.get::<String, _>(0)).collect();
    for t in tables {
        let cols: Vec<String> = sqlx::query(&format!("SELECT name FROM pragma_table_info('{t}')")).fetch_all(&pool).await?.iter().map(|r| r.get::<String, _>(0)).collect();
        let expr = cols.iter().map(|c| format!("quote(\"{c}\")")).collect::<Vec<_>>().join("||','||");
        for r in sqlx::query(&format!("SELECT {expr} FROM \"{t}\" ORDER BY 1")).fetch_all(&pool).await? {
            out.push(format!("{t}: {}", r.get::<String, _>(0)));
        }
    }
    for r in sqlx::query("SELECT type||name||coalesce(sql,'') FROM sqlite_master ORDER BY 1").fetch_all(&pool).await? {
        out.push(r.get::<String, _>(0));
    }
    pool.close().await;
    Ok(out)
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("one evaluation = one call on a catalogue opened read-only (every mutating call must fail, every read must equal the writable catalogue's answer), in each journal mode, alone or beside a busy writer; distinct by (journal mode, call, state); non-trivial when the catalogue is not empty");
    let rt = rt(4);
    let modes = [SqliteJournalMode::Wal, SqliteJournalMode::Delete, SqliteJournalMode::Truncate, SqliteJournalMode::Persist];
    for n in 0..ctx.n(40, 1200) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(async {
            let mut r = ctx.rng_n("c06", n);
            let mode = modes[if n < 4 { n as usize } else { r.gen_range(0..4) }];
            let dir = scratch();
            let path = dir.path().join("c.sqlite");
            let rw = match SqliteRepository::try_new(path.to_string_lossy().to_string(), mode).await {
                Ok(x) => x,
                Err(e) => return ctx.inconclusive(format!("cannot open catalog: {e}")),
            };
            let Some((model, known)) = seeded_state(&rw, &mut r).await else {
                return ctx.count("setup scripts rejected by the model", 1);
            };
            let ro = match SqliteRepository::try_new_read_only(path.to_string_lossy().to_string(), mode).await {
                Ok(x) => x,
                Err(e) => {
                    ctx.violation("read-only open fails", format!("{mode:?}: {e}"));
                    return;
                }
            };
            let quiet = chance(&mut r, 0.6);
            if quiet {
                let before = dump(&path).await;
                let bytes = std::fs::read(&path).unwrap_or_default();
                for _ in 0..60 {
                    let op = gen_op(&mut r, &known, Profile::General, 5, true);
                    let res = run(&ro, &op).await;
                    ctx.eval(&(mode as u8, sfv::hash_of(&op), sfv::hash_of(&model)), model.dbs.len() + model.tables.len() > 1);
                    ctx.seen("operation/result kinds", &(kind(&op), res_kind(&res)));
                    if is_write(&op) {
                        let failed = matches!(res, Res::Unique | Res::Fk | Res::NotFound | Res::Busy | Res::Other(_));
                        if !ctx.check(failed, &format!("read-only {} succeeds", kind(&op)), || format!("{op:?} -> {res:?}")) {
                            return;
                        }
                    } else {
                        let rwres = run(&rw, &op).await;
                        if !ctx.check(res == rwres && model.step(&op, &res).is_some(), &format!("read-only {} differs", kind(&op)), || format!("{op:?}: read-only {res:?}, writable {rwres:?}")) {
                            return;
                        }
                    }
                }
                // function replacement and pruning always change something if they get through
                for op in [Op::CreateDb("never".into()), Op::Prune(1), Op::DropFn(1, vec!["a".into(), "b".into()])] {
                    let res = run(&ro, &op).await;
                    ctx.check(matches!(res, Res::NotFound | Res::Other(_) | Res::Fk | Res::Unique | Res::Busy), &format!("read-only {} succeeds", kind(&op)), || format!("{res:?}"));
                }
                for op in ["update_dropped", "delete_dropped"] {
                    let u = Uuid::from_u128(5);
                    let ok = if op == "update_dropped" { ro.update_dropped_table(u, DroppedTableDeletionStatus::Retry).await.is_ok() } else { ro.delete_dropped_table(u).await.is_ok() };
                    ctx.check(!ok, &format!("read-only {op} succeeds"), String::new);
                }
                ro.executor.close().await;
                let after = dump(&path).await;
                match (before, after) {
                    (Ok(a), Ok(b)) => {
                        ctx.check(a == b, "read-only use changed the contents", || format!("{:?}", a.iter().zip(&b).find(|(x, y)| x != y)));
                    }
                    (a, b) => ctx.inconclusive(format!("dump: {:?} {:?}", a.err(), b.err())),
                }
                if mode != SqliteJournalMode::Wal {
                    ctx.check(bytes == std::fs::read(&path).unwrap_or_default(), "read-only use changed the file", String::new);
                }
                if n < 3 {
                    ctx.sample(serde_json::json!({"journal_mode": format!("{mode:?}"), "contents": model.view().len()}));
                }
            } else {
                // beside a writer: what is read must be some state the writer went through
                let mut states = vec![model.view()];
                let mut m = model.clone();
                let mut known = known.clone();
                let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
                let stop2 = stop.clone();
                let ro = Arc::new(ro);
                let ro2 = ro.clone();
                let readerj = tokio::spawn(async move {
                    let mut out = vec![];
                    while !stop2.load(Ordering::SeqCst) {
                        // one statement at a time is consistent: compare listings
                        let mut l = vec![];
                        for d in NAMES.iter().take(5) {
                            l.push((d.to_string(), run(ro2.as_ref(), &Op::List(d.to_string())).await));
                        }
                        out.push(l);
                        let w = run(ro2.as_ref(), &Op::CreateDb("never".into())).await;
                        out.push(vec![("write".into(), w)]);
                    }
                    out
                });
                let mut listings: HashSet<(String, Res)> = HashSet::new();
                let note = |m: &Model, l: &mut HashSet<(String, Res)>| {
                    for d in NAMES.iter().take(5) {
                        l.insert((d.to_string(), Res::Listing(m.listing(d))));
                    }
                };
                note(&m, &mut listings);
                for _ in 0..40 {
                    let op = gen_op(&mut r, &known, Profile::General, 5, false);
                    let res = run(&rw, &op).await;
                    known.learn(&op, &res);
                    match m.step(&op, &res) {
                        Some(x) => m = x,
                        None => break,
                    }
                    note(&m, &mut listings);
                    states.push(m.view());
                }
                stop.store(true, Ordering::SeqCst);
                for l in readerj.await.unwrap_or_default() {
                    for (d, res) in l {
                        if d == "write" {
                            ctx.check(!matches!(res, Res::Id(_)), "read-only create_database succeeds", || format!("{res:?}"));
                            continue;
                        }
                        // beside a live writer SQLite may turn a reader away (a held lock, a
                        // journal that only a writer may roll back): no listing, so no wrong one
                        if matches!(res, Res::Busy | Res::Other(_)) {
                            ctx.count("reads turned away beside a writer", 1);
                            continue;
                        }
                        ctx.count("listings beside a writer", 1);
                        ctx.eval(&("beside", sfv::hash_of(&res)), true);
                        if !listings.contains(&(d.clone(), res.clone())) {
                            ctx.violation("read-only listing shows a state that never was", format!("{d:?}: {}", sfv::trunc(&format!("{res:?}"), 800)));
                            return;
                        }
                    }
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C07
pub fn c07(ctx: &Ctx) {
    ctx.rule("one evaluation = one catalogue file at one migration level with random contents, opened by the current code (then twice more), contents compared; or one reopening of a current file compared byte-wise by dump; distinct by (level, contents)");
    let rt = rt(2);
    let all: Vec<_> = SqliteRepository::MIGRATOR.migrations.iter().filter(|m| m.migration_type.is_up_migration()).cloned().collect();
    ctx.extra("migration levels", serde_json::json!(all.iter().map(|m| m.version).collect::<Vec<_>>()));
    for n in 0..ctx.n(60, 2500) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(async {
            let mut r = ctx.rng_n("c07", n);
            // the shipped levels, whatever is added later
            let level = 1 + (n as usize % all.len().max(1));
            let dir = scratch();
            let path = dir.path().join("c.sqlite");
            use sqlx::sqlite::{SqliteConnectOptions, SqlitePoolOptions};
            let opts = SqliteConnectOptions::new().filename(&path).create_if_missing(true).journal_mode(SqliteJournalMode::Wal);
            let pool = match SqlitePoolOptions::new().max_connections(1).connect_with(opts).await {
                Ok(p) => p,
                Err(e) => return ctx.inconclusive(e.to_string()),
            };
            let subset = sqlx::migrate::Migrator { migrations: std::borrow::Cow::Owned(all[..level].to_vec()), ..sqlx::migrate!("migrations/sqlite") };
            if let Err(e) = subset.run(&pool).await {
                ctx.violation("migration fails", format!("level {level}: {e}"));
                return;
            }
            // contents as that release would have written them
            let mut want: Vec<String> = vec![];
            let ex = |sql: String, binds: Vec<String>| {
                let pool = pool.clone();
                async move {
                    let mut q = sqlx::query(&sql);
                    for b in &binds {
                        q = q.bind(b);
                    }
                    q.execute(&pool).await.map(|_| ())
                }
            };
            let res: Result<(), sqlx::Error> = async {
                let (mut cid, mut tid, mut vid, mut fid) = (0, 0, 0, 0);
                for di in 1..=r.gen_range(1..4) {
                    let dn = NAMES[di];
                    ex(format!("INSERT INTO database(id, name) VALUES ({di}, $1)"), vec![dn.into()]).await?;
                    want.push(format!("db {dn:?}"));
                    for fi in 0..r.gen_range(0..3) {
                        fid += 1;
                        let k: u8 = r.gen_range(0..30);
                        let row = details_row(k);
                        let mut b = vec![NAMES[fi].to_string()];
                        b.extend(row.clone());
                        ex(format!("INSERT INTO \"function\"(id, database_id, name, entrypoint, language, input_types, return_type, data, volatility) VALUES ({fid}, {di}, $1, $2, $3, $4, $5, $6, $7)"), b).await?;
                        want.push(format!("fn {dn:?}.{:?} {row:?}", NAMES[fi]));
                    }
                    for ci in 0..r.gen_range(0..3) {
                        cid += 1;
                        let cn = NAMES[ci];
                        ex(format!("INSERT INTO collection(id, database_id, name) VALUES ({cid}, {di}, $1)"), vec![cn.into()]).await?;
                        want.push(format!("col {dn:?}.{cn:?}"));
                        for ti in 0..r.gen_range(0..4) {
                            tid += 1;
                            let tn = NAMES[(ti + ci) % NAMES.len()];
                            let uuid: u128 = if level >= 3 { r.gen() } else { 0 };
                            if level >= 3 {
                                let hex = format!("{uuid:032x}");
                                ex(format!("INSERT INTO \"table\"(id, collection_id, name, uuid) VALUES ({tid}, {cid}, $1, x'{hex}')"), vec![tn.into()]).await?;
                            } else {
                                ex(format!("INSERT INTO \"table\"(id, collection_id, name) VALUES ({tid}, {cid}, $1)"), vec![tn.into()]).await?;
                            }
                            let nv = r.gen_range(1..4);
                            let mut nums = vec![];
                            let depth = if level == 1 { 0 } else { 2 };
                            let mut names = BTreeSet::new();
                            let fields: Vec<Field> = (0..r.gen_range(0..6)).map(|_| {
                                let mut f = gen_field(&mut r, depth).with_metadata(Default::default());
                                // what the old text formats could express
                                let expressible = sfv::guarded(|| matches!(arrow_integration_test::field_from_json(&arrow_integration_test::field_to_json(&f)), Ok(ref g) if canon_field(g) == canon_field(&f))).unwrap_or(false);
                                if level == 1 || !expressible {
                                    f = Field::new(f.name().clone(), [DataType::Utf8, DataType::Int64, DataType::Float32, DataType::Date32, DataType::Boolean][r.gen_range(0..5)].clone(), level == 1 || f.is_nullable());
                                }
                                if level > 1 && r.gen_bool(0.2) {
                                    f = f.with_metadata((0..r.gen_range(1..3)).map(|_| (gen_name(&mut r), gen_name(&mut r))).collect());
                                }
                                f
                            }).filter(|f| names.insert(f.name().clone())).collect();
                            for v in 0..nv {
                                vid += 1;
                                if level >= 3 {
                                    ex(format!("INSERT INTO table_version(id, table_id, version) VALUES ({vid}, {tid}, {v})"), vec![]).await?;
                                    nums.push(v as i64);
                                } else {
                                    ex(format!("INSERT INTO table_version(id, table_id) VALUES ({vid}, {tid})"), vec![]).await?;
                                    nums.push(-1);
                                }
                                for f in &fields {
                                    let json = match level {
                                        1 => arrow_integration_test::data_type_to_json(f.data_type()).to_string(),
                                        _ if r.gen_bool(0.3) && level >= 4 => serde_json::to_string(f).unwrap(),
                                        _ => {
                                            let mut j = arrow_integration_test::field_to_json(f);
                                            if !f.metadata().is_empty() {
                                                j["metadata"] = f.metadata().iter().map(|(k, v)| serde_json::json!({"key": k, "value": v})).collect();
                                            }
                                            j.to_string()
                                        }
                                    };
                                    ex(format!("INSERT INTO table_column(table_version_id, name, type) VALUES ({vid}, $1, $2)"), vec![f.name().clone(), json]).await?;
                                }
                            }
                            want.push(format!("table {dn:?}.{cn:?}.{tn:?} {uuid:032x} versions {nums:?}"));
                            for f in &fields {
                                want.push(format!("column {dn:?}.{cn:?}.{tn:?} {:?} {}", f.name(), canon_field(f)));
                            }
                        }
                    }
                }
                Ok(())
            }.await;
            if let Err(e) = res {
                return ctx.inconclusive(format!("cannot write level {level} contents: {e}"));
            }
            pool.close().await;
            want.sort();
            ctx.eval(&(level, &want), !want.is_empty());
            ctx.seen("levels", &level);
            let mut last: Option<Vec<String>> = None;
            for round in 0..3 {
                let p2 = path.clone();
                let j = tokio::spawn(async move {
                    let repo = open(&p2).await.map_err(|e| e.to_string())?;
                    let v = real_view(&repo, &all_names()).await;
                    // the text itself: the old formats are converted for good
                    let mut old = vec![];
                    for d in all_names() {
                        for c in repo.list_collections(&d).await.unwrap_or_default() {
                            old.extend(c.column_type.filter(|t| serde_json::from_str::<Field>(t).is_err()));
                        }
                    }
                    repo.executor.close().await;
                    v.map(|v| (v, old))
                });
                match j.await {
                    Err(e) => {
                        ctx.violation(&format!("opening a level {level} catalog panics"), format!("{e} {}", sfv::last_panic()));
                        return;
                    }
                    Ok(Err(e)) => {
                        ctx.violation(&format!("level {level} catalog cannot be read"), e);
                        return;
                    }
                    Ok(Ok((v, old))) => {
                        // what the second migration leaves behind is converted by the next opening
                        if round > 0 || level > 1 {
                            ctx.check(old.is_empty(), &format!("level {level} definitions left unconverted"), || format!("opening {round}: {old:?}"));
                            ctx.count("listings in the current format", 1);
                        }
                        if v != want {
                            let missing: Vec<_> = want.iter().filter(|x| !v.contains(x)).take(4).collect();
                            let extra: Vec<_> = v.iter().filter(|x| !want.contains(x)).take(4).collect();
                            ctx.violation(&format!("upgrade from level {level} changes contents"), format!("opening {round}: missing {missing:?} extra {extra:?}"));
                            return;
                        }
                    }
                }
                let d = dump(&path).await.unwrap_or_default();
                if round >= 1 {
                    if let Some(l) = &last {
                        // the definition format may still be normalised on the second opening, not after
                        if round == 2 {
                            ctx.check(*l == d, "reopening an up-to-date catalog changes it", || format!("{:?}", l.iter().zip(&d).find(|(a, b)| a != b)));
                        }
                    }
                }
                last = Some(d);
            }
            if n < 2 {
                ctx.sample(serde_json::json!({"level": level, "contents": want.iter().take(6).collect::<Vec<_>>()}));
            }
        });
    }
}


// ---------------------------------------------------------------- C08
type Dropped = BTreeMap<u128, (String, String, String, DroppedTableDeletionStatus, i64)>;

async fn dropped_rows(repo: &SqliteRepository, db: Option<&str>) -> Result<Vec<(u128, (String, String, String, DroppedTableDeletionStatus, i64))>, String> {
    let mut rows: Vec<_> = repo.get_dropped_tables(db.map(|d| d.to_string())).await.map_err(|e| e.to_string())?.into_iter()
        .map(|r| (r.uuid.as_u128(), (r.database_name, r.collection_name, r.table_name, r.deletion_status, r.drop_time)))
        .collect();
    rows.sort_by_key(|r| r.0);
    Ok(rows)
}
fn dropped_want(m: &Dropped, db: Option<&str>) -> Vec<(u128, (String, String, String, DroppedTableDeletionStatus, i64))> {
    m.iter().filter(|(_, r)| db.is_none_or(|d| d == r.0)).map(|(u, r)| (*u, r.clone())).collect()
}
const STATUSES: [DroppedTableDeletionStatus; 3] = [DroppedTableDeletionStatus::Pending, DroppedTableDeletionStatus::Retry, DroppedTableDeletionStatus::Failed];

pub fn c08(ctx: &Ctx) {
    ctx.rule("one evaluation = one listing, update or removal in a random history of the register compared with the model, or one concurrent round; distinct by (operation, state)");
    let rt = rt(4);
    for n in 0..ctx.n(80, 4000) as u64 {
        if ctx.used(0.7) {
            break;
        }
        rt.block_on(dropped_script(ctx, n));
    }
    for n in 0..ctx.n(60, 4000) as u64 {
        if ctx.out_of_time() {
            break;
        }
        rt.block_on(dropped_race(ctx, n));
    }
}

async fn put_dropped(repo: &SqliteRepository, r: &mut StdRng, m: &mut Dropped, names: &[&str]) -> u128 {
    // some identifiers differ from another one in a single byte only
    let u: u128 = if !m.is_empty() && chance(r, 0.4) { m.keys().nth(r.gen_range(0..m.len())).unwrap() ^ (1u128 << (8 * r.gen_range(0..16))) } else { r.gen() };
    if m.contains_key(&u) {
        return u;
    }
    let row = (pick(r, names).to_string(), pick(r, names).to_string(), pick(r, names).to_string(), *pick(r, &STATUSES), *pick(r, &[0i64, 1, 1_500_000_000, 1_700_000_000, 4_102_444_800, 253_402_300_799]));
    let default_status = row.3 == DroppedTableDeletionStatus::Pending && chance(r, 0.5);
    let q = if default_status {
        sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, drop_time) VALUES ($1, $2, $3, $4, $5)").bind(&row.0).bind(&row.1).bind(&row.2).bind(Uuid::from_u128(u)).bind(row.4)
    } else {
        sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, drop_time, deletion_status) VALUES ($1, $2, $3, $4, $5, $6)").bind(&row.0).bind(&row.1).bind(&row.2).bind(Uuid::from_u128(u)).bind(row.4).bind(row.3.to_string())
    };
    q.execute(&repo.executor).await.expect("adding to the register");
    m.insert(u, row);
    u
}

async fn dropped_script(ctx: &Ctx, n: u64) {
    let mut r = ctx.rng_n("dropped", n + 80_000);
    let dir = scratch();
    let path = dir.path().join("c.sqlite");
    let mut repo = open(&path).await.expect("opening a catalogue");
    let names = &NAMES[..if n % 2 == 0 { 3 } else { NAMES.len() }];
    // wildcards, and names that contain others
    let more = ["a%", "%", "_", "ab", "A ", "aB"];
    let names: Vec<&str> = names.iter().copied().chain(more).collect();
    let mut m = Dropped::new();
    let mut used: Vec<u128> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut known = Known::default();
    for step in 0..60 {
        let before = m.clone();
        let dice = r.gen_range(0..100);
        let some = |r: &mut StdRng, used: &Vec<u128>| if used.is_empty() || chance(r, 0.1) { r.gen() } else { *pick(r, used) };
        if dice < 25 {
            let u = put_dropped(&repo, &mut r, &mut m, &names).await;
            used.push(u);
            trace.push(format!("put {u:032x} {:?}", m[&u]));
        } else if dice < 45 {
            let (u, s) = (some(&mut r, &used), *pick(&mut r, &STATUSES));
            let res = repo.update_dropped_table(Uuid::from_u128(u), s).await.map_err(classify);
            trace.push(format!("update {u:032x} {s} -> {res:?}"));
            ctx.eval(&("update", res.is_ok(), hash_of(&format!("{before:?}"))), true);
            let want = if let Some(e) = m.get_mut(&u) { e.3 = s; Ok(()) } else { Err(Res::NotFound) };
            ctx.check(res == want, "dropped-update", || format!("gives {res:?}, expected {want:?}; script {n}: {trace:?}"));
        } else if dice < 60 {
            let u = some(&mut r, &used);
            let res = repo.delete_dropped_table(Uuid::from_u128(u)).await.map_err(classify);
            trace.push(format!("delete {u:032x} -> {res:?}"));
            ctx.eval(&("delete", res.is_ok(), hash_of(&format!("{before:?}"))), true);
            let want = if m.remove(&u).is_some() { Ok(()) } else { Err(Res::NotFound) };
            ctx.check(res == want, "dropped-delete", || format!("gives {res:?}, expected {want:?}; script {n}: {trace:?}"));
        } else if dice < 80 {
            // nothing else touches the register
            let op = gen_op(&mut r, &known, Profile::General, 4, false);
            let res = run(&repo, &op).await;
            known.learn(&op, &res);
            trace.push(format!("{op:?} -> {res:?}"));
            ctx.count(&format!("register next to {}", kind(&op)), 1);
        } else if dice < 84 {
            repo.executor.close().await;
            repo = open(&path).await.expect("reopening a catalogue");
            trace.push("reopen".into());
            ctx.count("reopened", 1);
        } else if dice < 90 && !used.is_empty() {
            // a change that fails leaves no trace
            let u = some(&mut r, &used);
            let del = chance(&mut r, 0.5);
            sqlx::query(&format!("CREATE TRIGGER sfv AFTER {} ON dropped_table BEGIN SELECT RAISE(ABORT, 'injected failure'); END", if del { "DELETE" } else { "UPDATE" })).execute(&repo.executor).await.unwrap();
            let ok = if del { repo.delete_dropped_table(Uuid::from_u128(u)).await.is_ok() } else { repo.update_dropped_table(Uuid::from_u128(u), DroppedTableDeletionStatus::Failed).await.is_ok() };
            sqlx::query("DROP TRIGGER sfv").execute(&repo.executor).await.unwrap();
            trace.push(format!("failing change of {u:032x}"));
            ctx.count("injected failures", 1);
            ctx.check(!ok, "dropped-failure-hidden", || format!("a failed change reports success; script {n}: {trace:?}"));
        }
        for db in [None, Some(*pick(&mut r, &names)), Some(*pick(&mut r, &names))] {
            match dropped_rows(&repo, db).await {
                Ok(rows) => {
                    let want = dropped_want(&m, db);
                    ctx.eval(&("list", db, hash_of(&format!("{m:?}"))), true);
                    ctx.seen("listed entries", &rows.len().min(12));
                    ctx.check(rows == want, "dropped-listing", || format!("of {db:?} gives {rows:?}, expected {want:?}; script {n} step {step}: {trace:?}"));
                }
                Err(e) => ctx.violation("dropped-listing", &format!("of {db:?} fails: {e}; script {n}: {trace:?}")),
            }
        }
    }
    repo.executor.close().await;
}

async fn dropped_race(ctx: &Ctx, n: u64) {
    let mut r = ctx.rng_n("dropped", n + 90_000);
    let dir = scratch();
    let path = dir.path().join("c.sqlite");
    let repo = Arc::new(open(&path).await.expect("opening a catalogue"));
    // every other round through a connection pool of its own
    let other = if n % 2 == 0 { repo.clone() } else { Arc::new(open(&path).await.expect("opening a catalogue twice")) };
    let mut m = Dropped::new();
    for _ in 0..8 {
        put_dropped(&repo, &mut r, &mut m, &["a", "b"]).await;
    }
    let targets: Vec<u128> = m.keys().copied().take(5).collect();
    let mut tasks = vec![];
    for c in 0..4u64 {
        let repo = if c % 2 == 0 { repo.clone() } else { other.clone() };
        let (mut r, targets) = (ctx.rng_n("dropped", n * 10 + c + 100_000), targets.clone());
        tasks.push(tokio::spawn(async move {
            let mut out = vec![];
            for _ in 0..10 {
                let u = *pick(&mut r, &targets);
                if chance(&mut r, 0.25) {
                    out.push((u, None, repo.delete_dropped_table(Uuid::from_u128(u)).await.map_err(classify)));
                } else {
                    let s = *pick(&mut r, &STATUSES);
                    out.push((u, Some(s), repo.update_dropped_table(Uuid::from_u128(u), s).await.map_err(classify)));
                }
            }
            out
        }));
    }
    let mut done = vec![];
    for t in tasks {
        match t.await {
            Ok(o) => done.extend(o),
            Err(e) => return ctx.violation("dropped-race-panic", &format!("round {n}: {e}")),
        }
    }
    let left: Dropped = match dropped_rows(&repo, None).await {
        Ok(rows) => rows.into_iter().collect(),
        Err(e) => return ctx.violation("dropped-listing", &format!("after round {n} fails: {e}")),
    };
    ctx.eval(&("race", n), true);
    for (u, row) in &m {
        let mine: Vec<_> = done.iter().filter(|d| d.0 == *u).collect();
        let removed = mine.iter().filter(|d| d.1.is_none() && d.2.is_ok()).count();
        ctx.seen("removals and updates of one entry", &(removed, mine.iter().filter(|d| d.1.is_some() && d.2.is_ok()).count()));
        let bad = mine.iter().find(|d| !matches!(d.2, Ok(()) | Err(Res::NotFound) | Err(Res::Busy)));
        ctx.check(bad.is_none(), "dropped-race", || format!("round {n}: {bad:?}"));
        ctx.check(removed <= 1 && left.contains_key(u) == (removed == 0), "dropped-race", || format!("round {n}: {u:032x} was removed {removed} times and is {}listed: {mine:?}", if left.contains_key(u) { "" } else { "not " }));
        ctx.check(removed == 1 || !mine.iter().any(|d| d.2 == Err(Res::NotFound)), "dropped-race", || format!("round {n}: {u:032x} was never removed but not found: {mine:?}"));
        if let Some(l) = left.get(u) {
            let mut may: Vec<_> = mine.iter().filter(|d| d.2.is_ok()).filter_map(|d| d.1).collect();
            if may.is_empty() {
                may.push(row.3);
            }
            ctx.check((&l.0, &l.1, &l.2, l.4) == (&row.0, &row.1, &row.2, row.4) && may.contains(&l.3), "dropped-race", || format!("round {n}: {u:032x} is {l:?}, was {row:?}, set to {may:?}"));
        }
    }
    ctx.check(left.len() <= m.len(), "dropped-race", || format!("round {n}: entries came up: {left:?}"));
    other.executor.close().await;
    repo.executor.close().await;
}
