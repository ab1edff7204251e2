//! C56: whenever the process is killed, what it had acknowledged is there when it is started again, and nothing is half done
use crate::sf::{scratch, Sf};
use crate::spy::Spy;
use seafowl::{catalog::metastore::Metastore, config::{context::build_context, schema::load_config_from_string}, context::SeafowlContext, object_store::{factory::ObjectStoreFactory, wrapped::InternalObjectStore}, repository::sqlite::SqliteRepository, utils::gc_databases};
use sfv::{chance, pick, rand::{rngs::StdRng, Rng}, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Row = (i64, i64);
type Name = (String, String);

#[derive(Clone, Debug, PartialEq, Default)]
struct State { schemas: BTreeSet<String>, tables: BTreeMap<Name, Vec<Row>> }

#[derive(Clone, Debug)]
enum Op {
    Create(Name),
    Ctas(Name, Vec<Row>),
    CtasFrom(Name, Name),
    Insert(Name, Vec<Row>),
    InsertFrom(Name, Name),
    Update(Name, i64, i64, i64),
    Delete(Name, i64, i64),
    Truncate(Name),
    Drop(Name),
    Rename(Name, Name),
    Vacuum(Name),
    Gc,
    CreateSchema(String),
    DropSchema(String),
    /// one row for each of these numbers into the table that all clients write
    Shared(i64, i64),
}

fn q(n: &Name) -> String { format!("{}.{}", n.0, n.1) }
fn values(rows: &[Row]) -> String { rows.iter().map(|(k, v)| format!("({k}, {v})")).collect::<Vec<_>>().join(", ") }

impl Op {
    fn sql(&self) -> String {
        match self {
            Op::Create(t) => format!("CREATE TABLE {} (k BIGINT, v BIGINT)", q(t)),
            Op::Ctas(t, rows) => format!("CREATE TABLE {} AS SELECT CAST(column1 AS BIGINT) AS k, CAST(column2 AS BIGINT) AS v FROM (VALUES {}) x", q(t), values(rows)),
            Op::CtasFrom(t, s) => format!("CREATE TABLE {} AS SELECT k + 1 AS k, v FROM {}", q(t), q(s)),
            Op::Insert(t, rows) => format!("INSERT INTO {} VALUES {}", q(t), values(rows)),
            Op::InsertFrom(t, s) => format!("INSERT INTO {} SELECT k + 3, v FROM {}", q(t), q(s)),
            Op::Update(t, m, i, a) => format!("UPDATE {} SET v = v + {a} WHERE k % {m} = {i}", q(t)),
            Op::Delete(t, m, i) => format!("DELETE FROM {} WHERE k % {m} = {i}", q(t)),
            Op::Truncate(t) => format!("TRUNCATE TABLE {}", q(t)),
            Op::Drop(t) => format!("DROP TABLE {}", q(t)),
            Op::Rename(a, b) => format!("ALTER TABLE {} RENAME TO {}", q(a), q(b)),
            Op::Vacuum(t) => format!("VACUUM TABLE {}", q(t)),
            Op::Gc => "VACUUM DATABASE default".into(),
            Op::CreateSchema(s) => format!("CREATE SCHEMA {s}"),
            Op::DropSchema(s) => format!("DROP SCHEMA {s} CASCADE"),
            Op::Shared(a, n) => format!("INSERT INTO shared.all VALUES {}", (*a..*a + *n).map(|x| format!("({x})")).collect::<Vec<_>>().join(", ")),
        }
    }
    fn name(&self) -> &'static str {
        match self { Op::Create(_) => "create", Op::Ctas(..) => "ctas", Op::CtasFrom(..) => "ctas-from", Op::Insert(..) => "insert", Op::InsertFrom(..) => "insert-from", Op::Update(..) => "update", Op::Delete(..) => "delete", Op::Truncate(_) => "truncate", Op::Drop(_) => "drop", Op::Rename(..) => "rename", Op::Vacuum(_) => "vacuum", Op::Gc => "gc", Op::CreateSchema(_) => "create-schema", Op::DropSchema(_) => "drop-schema", Op::Shared(..) => "shared" }
    }
    /// what it makes of a state; None: it must be refused
    fn apply(&self, s: &State) -> Option<State> {
        let mut n = s.clone();
        let free = |t: &Name| s.schemas.contains(&t.0) && !s.tables.contains_key(t);
        match self {
            Op::Create(t) => { if !free(t) { return None } n.tables.insert(t.clone(), vec![]); }
            Op::Ctas(t, rows) => { if !free(t) { return None } n.tables.insert(t.clone(), rows.clone()); }
            Op::CtasFrom(t, f) => { if !free(t) { return None } n.tables.insert(t.clone(), s.tables.get(f)?.iter().map(|(k, v)| (k + 1, *v)).collect()); }
            Op::Insert(t, rows) => n.tables.get_mut(t)?.extend(rows),
            Op::InsertFrom(t, f) => { let more: Vec<Row> = s.tables.get(f)?.iter().map(|(k, v)| (k + 3, *v)).collect(); n.tables.get_mut(t)?.extend(more); }
            Op::Update(t, m, i, a) => n.tables.get_mut(t)?.iter_mut().for_each(|r| if r.0 % m == *i { r.1 += a }),
            Op::Delete(t, m, i) => n.tables.get_mut(t)?.retain(|r| r.0 % m != *i),
            Op::Truncate(t) => n.tables.get_mut(t)?.clear(),
            Op::Drop(t) => { n.tables.remove(t)?; }
            Op::Rename(a, b) => { if !free(b) { return None } let rows = n.tables.remove(a)?; n.tables.insert(b.clone(), rows); }
            Op::Vacuum(t) => { s.tables.get(t)?; }
            Op::Gc | Op::Shared(..) => {}
            Op::CreateSchema(c) => { if !n.schemas.insert(c.clone()) { return None } }
            Op::DropSchema(c) => { if !n.schemas.remove(c) { return None } n.tables.retain(|t, _| t.0 != *c); }
        }
        n.tables.values_mut().for_each(|r| r.sort());
        Some(n)
    }
}

fn script(r: &mut StdRng, client: usize, from: &State, len: usize, shared: &mut i64) -> Vec<Op> {
    let schemas = [format!("c{client}"), format!("c{client}x")];
    let mut s = from.clone();
    let mut out = vec![];
    while out.len() < len {
        let have: Vec<Name> = s.tables.keys().cloned().collect();
        let name = (pick(r, &schemas).clone(), format!("t{}", r.gen_range(0..4)));
        let rows: Vec<Row> = (0..r.gen_range(1..9)).map(|_| (r.gen_range(0..40), r.gen_range(0..1000))).collect();
        let m = r.gen_range(1..5);
        let i = r.gen_range(0..m);
        if have.is_empty() && !s.schemas.contains(&name.0) { let op = Op::CreateSchema(name.0.clone()); s = op.apply(&s).unwrap(); out.push(op); continue }
        let op = match if have.is_empty() { r.gen_range(0..3) } else { r.gen_range(0..22) } {
            0 => Op::Create(name),
            1 | 2 => Op::Ctas(name, rows),
            3 => Op::CtasFrom(name, pick(r, &have).clone()),
            4..=6 => Op::Insert(pick(r, &have).clone(), rows),
            7 => Op::InsertFrom(pick(r, &have).clone(), pick(r, &have).clone()),
            8..=10 => Op::Update(pick(r, &have).clone(), m, i, r.gen_range(1..100)),
            11..=13 => Op::Delete(pick(r, &have).clone(), m, i),
            14 => Op::Truncate(pick(r, &have).clone()),
            15 => Op::Drop(pick(r, &have).clone()),
            16 => Op::Rename(pick(r, &have).clone(), name),
            17 => Op::Vacuum(pick(r, &have).clone()),
            18 => Op::Gc,
            19 => Op::CreateSchema(name.0),
            20 => Op::DropSchema(name.0),
            _ => { let n = r.gen_range(1..8); *shared += n; Op::Shared(*shared - n, n) }
        };
        if s.tables.values().any(|t| t.len() > 120) && matches!(op, Op::InsertFrom(..)) { continue }
        if let Some(n) = op.apply(&s) { s = n; out.push(op) }
    }
    out
}

// ---- the process that is killed

#[derive(serde::Serialize, serde::Deserialize)]
struct Job { dir: PathBuf, extra: String, scripts: Vec<Vec<String>>, /// it ends in statement `die_in` of client 0: at this operation of the store, and `later_us` after that
    die_at: i64, die_in: usize, later_us: u64, delay_us: u64, gc: bool }

fn say(s: String) {
    static ONE: Mutex<()> = Mutex::new(());
    let _g = ONE.lock();
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

static ARMED: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicI64 = AtomicI64::new(0);
fn die(later: u64) {
    if later == 0 { std::process::abort() }
    std::thread::spawn(move || { std::thread::sleep(Duration::from_micros(later)); std::process::abort() });
}

/// as Sf::open, with what is done in the store going through a spy
async fn open_spied(dir: &Path, extra: &str) -> (SeafowlContext, Arc<Spy>) {
    let text = format!("[object_store]\ntype = \"local\"\ndata_dir = \"{0}/data\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/seafowl.sqlite\"\n{extra}\n", dir.display());
    let mut ctx = build_context(load_config_from_string(&text, false, None).unwrap()).await.unwrap();
    let old = ctx.internal_object_store.clone().unwrap();
    let spy = Spy::new(old.inner.clone());
    let store = Arc::new(InternalObjectStore::new(spy.clone(), old.config.clone()));
    let repository = SqliteRepository::try_new(format!("{}/seafowl.sqlite", dir.display()), sqlx::sqlite::SqliteJournalMode::Wal).await.unwrap();
    ctx.metastore = Arc::new(Metastore::new_from_repository(Arc::new(repository), Arc::new(ObjectStoreFactory::verif_with_store(store.clone()))));
    ctx.internal_object_store = Some(store);
    (ctx, spy)
}

pub fn child_main(args: &[String]) -> i32 {
    let job: Job = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
    super::rt(4).block_on(async move {
        let ctx = if job.die_at >= 0 { {
            let (ctx, spy) = open_spied(&job.dir, &job.extra).await;
            // the process ends there and then, as if it were killed: before the n-th operation of the store, or just as it is done
            let later = job.later_us;
            spy.set_fault(Some(Arc::new(move |_, _| {
                if ARMED.load(SeqCst) && LEFT.fetch_sub(1, SeqCst) == 0 { die(later) }
                false
            })));
            spy.delay_us.store(job.delay_us, SeqCst);
            Arc::new(ctx)
        } } else {
            let sf = Sf::open(&job.dir, &job.extra).await;
            let c = sf.ctx.clone();
            sf.into_kept();
            c
        };
        // as main() does
        gc_databases(&ctx, ctx.internal_object_store.clone().unwrap(), None).await;
        say("R\n".into());
        let (die_at, die_in, later) = (job.die_at, job.die_in, job.later_us);
        let ended = Arc::new(AtomicU64::new(0));
        let tasks: Vec<_> = job.scripts.into_iter().enumerate().map(|(j, script)| {
            let ctx = ctx.clone();
            tokio::spawn(async move {
                for (i, q) in script.iter().enumerate() {
                    say(format!("B {j} {i}\n"));
                    let last = die_at >= 0 && j == 0 && i == die_in;
                    if last {
                        LEFT.store(die_at, SeqCst);
                        ARMED.store(true, SeqCst);
                        // there may be no such operation
                        if die_at == 0 && later > 0 { die(later) }
                    }
                    match crate::sf::sql(&ctx, q).await {
                        Ok(_) => say(format!("E {j} {i}\n")),
                        Err(e) => say(format!("F {j} {i} {}\n", e.to_string().replace('\n', " "))),
                    }
                    if last { std::process::abort() }
                }
            })
        }).collect();
        if job.gc {
            let (ctx, ended) = (ctx.clone(), ended.clone());
            tokio::spawn(async move { while ended.load(SeqCst) == 0 { gc_databases(&ctx, ctx.internal_object_store.clone().unwrap(), None).await; tokio::time::sleep(Duration::from_millis(15)).await } });
        }
        for t in tasks { if let Err(e) = t.await { say(format!("P {e}\n")) } }
        ended.store(1, SeqCst);
        say("D\n".into());
        // nothing is shut down in good order
        std::process::abort()
    })
}

// ---- the one that kills it

#[derive(Debug, Default)]
struct Seen { began: Vec<usize>, ended: Vec<(usize, Result<(), String>)> }

struct Run { seen: Vec<Seen>, ready: bool, done: bool, how: String, log: String }

fn in_child(r: &mut StdRng, job: Job, n: usize) -> Run {
    let path = job.dir.join("job.json");
    std::fs::write(&path, serde_json::to_vec(&job).unwrap()).unwrap();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["crash-child", path.to_str().unwrap()]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let t0 = Instant::now();
    let child = Arc::new(Mutex::new(c.spawn().expect("starting the child")));
    let out = child.lock().unwrap().stdout.take().unwrap();
    let mut err = child.lock().unwrap().stderr.take().unwrap();
    let errs = std::thread::spawn(move || { let mut s = vec![]; let _ = std::io::Read::read_to_end(&mut err, &mut s); String::from_utf8_lossy(&s).into_owned() });
    let seen = Arc::new(Mutex::new((0..n).map(|_| Seen::default()).collect::<Vec<_>>()));
    let flags = Arc::new((AtomicI64::new(-1), AtomicU64::new(0)));
    let panics = Arc::new(Mutex::new(String::new()));
    let reader = {
        let (seen, flags, panics) = (seen.clone(), flags.clone(), panics.clone());
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                let p: Vec<&str> = l.splitn(4, ' ').collect();
                let num = |i: usize| p[i].parse::<usize>().unwrap();
                match p[0] {
                    "R" => flags.0.store(t0.elapsed().as_millis() as i64, SeqCst),
                    "D" => flags.1.store(1, SeqCst),
                    "B" => seen.lock().unwrap()[num(1)].began.push(num(2)),
                    "E" => seen.lock().unwrap()[num(1)].ended.push((num(2), Ok(()))),
                    "F" => seen.lock().unwrap()[num(1)].ended.push((num(2), Err(p[3].to_string()))),
                    "P" => panics.lock().unwrap().push_str(&l),
                    _ => {}
                }
            }
        })
    };
    // when: by itself, at a time after its start, or at a time after it is ready
    let (what, limit) = if job.die_at >= 0 { ("by itself".to_string(), None) } else if chance(r, 0.15) { ("while starting".to_string(), Some((false, r.gen_range(10..400)))) } else { ("while working".to_string(), Some((true, { let x: f64 = r.gen(); (x * x * 700.0) as i64 }))) };
    loop {
        if child.lock().unwrap().try_wait().unwrap().is_some() { break }
        let ready = flags.0.load(SeqCst);
        let ms = t0.elapsed().as_millis() as i64;
        let over = match limit { None => false, Some((false, at)) => ms >= at, Some((true, at)) => ready >= 0 && ms >= ready + at };
        if over || ms > 120_000 { let _ = child.lock().unwrap().kill(); let _ = child.lock().unwrap().wait(); break }
        std::thread::sleep(Duration::from_millis(2));
    }
    let _ = reader.join();
    let mut log = errs.join().unwrap_or_default();
    log.push_str(&panics.lock().unwrap());
    let seen = std::mem::take(&mut *seen.lock().unwrap());
    Run { seen, ready: flags.0.load(SeqCst) >= 0, done: flags.1.load(SeqCst) == 1, how: format!("killed {what}{}", if job.die_at >= 0 { format!(" {} µs into store operation {} of statement {} of c0", job.later_us, job.die_at, job.die_in) } else { format!(" {limit:?}") }), log }
}

/// the server itself, over HTTP
fn in_server(r: &mut StdRng, dir: &Path, extra: &str, scripts: &[Vec<String>]) -> Run {
    let port = super::config::free_port();
    std::fs::write(dir.join("c.toml"), format!("[object_store]\ntype = \"local\"\ndata_dir = \"{0}/data\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/seafowl.sqlite\"\n[frontend.http]\nbind_port = {port}\nread_access = \"any\"\nwrite_access = \"any\"\n{extra}\n", dir.display())).unwrap();
    let x: f64 = r.gen();
    let after = (x * x * 900.0) as u64;
    let server = match super::config::start(dir, port, &["-c", "c.toml"], &[]) {
        Ok(s) => s,
        Err(e) => return Run { seen: scripts.iter().map(|_| Seen::default()).collect(), ready: false, done: e == "TIMEOUT", how: "the server did not start".into(), log: e },
    };
    let t0 = Instant::now();
    let log = server.log.clone();
    let rt = super::rt(2);
    let (seen, done) = rt.block_on(async {
        let tasks: Vec<_> = scripts.iter().cloned().map(|script| {
            let client = reqwest::Client::new();
            let state = Arc::new(Mutex::new(Seen::default()));
            let s = state.clone();
            let h = tokio::spawn(async move {
                for (i, q) in script.iter().enumerate() {
                    s.lock().unwrap().began.push(i);
                    let a = client.post(format!("http://127.0.0.1:{port}/q")).json(&serde_json::json!({ "query": q })).send().await;
                    // no answer: nobody knows
                    let Ok(a) = a else { return };
                    let code = a.status().as_u16();
                    let Ok(text) = a.text().await else { return };
                    s.lock().unwrap().ended.push((i, if code == 200 { Ok(()) } else { Err(format!("{code} {text}")) }));
                }
            });
            (state, h)
        }).collect();
        let mut finished = false;
        while t0.elapsed().as_millis() < after as u128 {
            if tasks.iter().all(|t| t.1.is_finished()) { finished = true; break }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        drop(server); // SIGKILL
        let mut out = vec![];
        for (s, h) in tasks { let _ = tokio::time::timeout(Duration::from_secs(30), h).await; out.push(std::mem::take(&mut *s.lock().unwrap())) }
        (out, finished)
    });
    Run { seen, ready: true, done, how: format!("the server killed after {after} ms"), log: std::fs::read_to_string(log).unwrap_or_default() }
}

async fn actual(sf: &Sf, clients: usize) -> Result<(Vec<State>, BTreeMap<i64, usize>), String> {
    let mut out = vec![State::default(); clients];
    for j in 0..clients {
        for s in [format!("c{j}"), format!("c{j}x")] {
            if sf.ctx.metastore.schemas.get("default", &s).await.is_ok() { out[j].schemas.insert(s); }
        }
    }
    let listed = sf.rows("SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema NOT IN ('information_schema', 'system')").await.map_err(|e| format!("the tables can not be listed: {e}"))?;
    let cols = sf.rows("SELECT table_schema, table_name, string_agg(column_name, ',') FROM information_schema.columns WHERE table_schema LIKE 'c%' GROUP BY 1, 2").await.map_err(|e| format!("the columns can not be listed: {e}"))?;
    for t in listed {
        let n: Name = (t[0].clone(), t[1].clone());
        if n.0 == "shared" { continue }
        let j: usize = n.0.trim_start_matches('c').trim_end_matches('x').parse().map_err(|_| format!("unknown table {n:?} is listed"))?;
        if !cols.iter().any(|c| c[0] == n.0 && c[1] == n.1) { return Err(format!("table {n:?} has no columns")) }
        let rows = sf.rows(&format!("SELECT k, v FROM {}", q(&n))).await.map_err(|e| format!("table {n:?} is listed but can not be read: {e}"))?;
        let mut rows: Vec<Row> = rows.iter().map(|r| (r[0].parse().unwrap(), r[1].parse().unwrap())).collect();
        rows.sort();
        out[j].tables.insert(n, rows);
    }
    let mut all = BTreeMap::new();
    for r in sf.rows("SELECT id FROM shared.all").await.map_err(|e| format!("shared.all can not be read: {e}"))? { *all.entry(r[0].parse().unwrap()).or_insert(0) += 1; }
    Ok((out, all))
}

fn brief(s: &State) -> String { sfv::trunc(&format!("{s:?}"), 900) }

fn history(ctx: &Ctx, h: u64) {
    let mut r = ctx.rng_n("history", h);
    let dir = scratch();
    let part = *pick(&mut r, &[1usize, 2, 3, 7, 1000]);
    let extra = format!("[misc]\nmax_partition_size = {part}");
    let clients = r.gen_range(1..5);
    let mut model = vec![State::default(); clients];
    let mut shared_sure: BTreeSet<i64> = BTreeSet::new();
    let mut next_shared = 0i64;
    let rt = super::rt(2);
    rt.block_on(async {
        let sf = Sf::open(&dir, &extra).await;
        for q in ["CREATE SCHEMA shared", "CREATE TABLE shared.all (id BIGINT)"] { if let Err(e) = sf.sql(q).await { ctx.violation("setup", format!("{q}: {e}")) } }
        sf.into_kept();
    });
    let mut trace: Vec<String> = vec![format!("{clients} clients, max_partition_size {part}")];
    let bad = |sig: &str, trace: &[String], d: String| ctx.violation(sig, format!("{d}\nhistory {h}:\n{}", trace[trace.len().saturating_sub(60)..].join("\n")));
    'rounds: for round in 0..r.gen_range(3..7) {
        if ctx.out_of_time() { break }
        let len = r.gen_range(6..22);
        let scripts: Vec<Vec<Op>> = (0..clients).map(|j| script(&mut r, j, &model[j], len, &mut next_shared)).collect();
        let texts: Vec<Vec<String>> = scripts.iter().map(|s| s.iter().map(|o| o.sql()).collect()).collect();
        let mode = r.gen_range(0..10);
        let run = if mode < 3 { in_server(&mut r, &dir, &extra, &texts) } else {
            // somewhere in one of the statements, the more complicated the better
            let weight = |o: &Op| match o { Op::Drop(_) | Op::DropSchema(_) | Op::Update(..) | Op::Delete(..) | Op::Truncate(_) => 4, Op::Gc | Op::CreateSchema(_) => 0, _ => 2 };
            let of: Vec<usize> = scripts[0].iter().enumerate().flat_map(|(i, o)| vec![i; weight(o)]).collect();
            let (die_at, die_in) = if mode < 8 && !of.is_empty() { (if chance(&mut r, 0.3) { 0 } else { r.gen_range(0..14) }, *pick(&mut r, &of)) } else { (-1, 0) };
            let job = Job { dir: dir.clone(), extra: extra.clone(), scripts: texts.clone(), die_at, die_in, later_us: if chance(&mut r, 0.5) { 0 } else { r.gen_range(1..4000) }, delay_us: *pick(&mut r, &[0, 0, 300, 2000]), gc: chance(&mut r, 0.5) };
            in_child(&mut r, job, clients)
        };
        trace.push(format!("round {round}: {}{}", run.how, if run.done { " (after everything was done)" } else { "" }));
        ctx.count(if mode < 3 { "kills_server" } else if mode < 8 { "kills_at_store_operation" } else { "kills_at_time" }, 1);
        if mode >= 3 && !run.ready && !run.how.contains("while starting") { bad("start", &trace, format!("it does not come up: {}", sfv::trunc(&run.log, 1500))); break }
        if run.done { ctx.count("killed after everything was done", 1) }
        if run.log.contains("panicked at") { bad("a panic", &trace, sfv::trunc(&run.log, 1500)); break }
        if mode < 3 && !run.ready { if run.done { ctx.inconclusive("the server took over 60 s to start") } else { bad("start", &trace, sfv::trunc(&run.log, 1500)) } break }
        // what each client knows
        let mut may: Vec<Vec<State>> = vec![];
        let mut shared_may: Vec<(i64, i64)> = vec![];
        let mut shared_not: BTreeSet<i64> = BTreeSet::new();
        for j in 0..clients {
            let s = &run.seen[j];
            for (i, e) in &s.ended {
                let op = &scripts[j][*i];
                trace.push(format!("  c{j} {} -> {}", op.sql(), match e { Ok(()) => "done", Err(e) => e.as_str() }));
                if let Op::Shared(a, n) = op {
                    if e.is_ok() { shared_sure.extend(*a..a + n) } else { shared_not.extend(*a..a + n); ctx.count("conflicts", 1) }
                    continue;
                }
                ctx.count(&format!("acknowledged {}", op.name()), 1);
                match (e, op.apply(&model[j])) {
                    (Ok(()), Some(n)) => model[j] = n,
                    (Ok(()), None) => { bad("accepted", &trace, format!("{} was accepted on {}", op.sql(), brief(&model[j]))); break 'rounds }
                    (Err(_), None) => {}
                    (Err(e), Some(_)) if e.contains("database is locked") || e.contains("PoolTimedOut") || e.contains("pool timed out") => { ctx.inconclusive(format!("{}: {e}", op.sql())); break 'rounds }
                    (Err(e), Some(_)) => { bad("refused", &trace, format!("{} was refused ({e}) on {}", op.sql(), brief(&model[j]))); break 'rounds }
                }
            }
            let mut can = vec![model[j].clone()];
            if s.began.len() > s.ended.len() {
                let op = &scripts[j][*s.began.last().unwrap()];
                trace.push(format!("  c{j} {} -> ?", op.sql()));
                ctx.count(&format!("interrupted {}", op.name()), 1);
                if let Op::Shared(a, n) = op { shared_may.push((*a, *n)) }
                if let Some(n) = op.apply(&model[j]) { can.push(n) }
            }
            may.push(can);
        }
        // start it again
        let checked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async {
            let sf = Sf::open(&dir, &extra).await;
            let first = actual(&sf, clients).await;
            let again = match r.gen_range(0..3) { 0 => None, 1 => { gc_databases(&sf.ctx, sf.ctx.internal_object_store.clone().unwrap(), None).await; Some("the clean-up") } _ => { if let Err(e) = sf.sql("VACUUM DATABASE default").await { bad("vacuum", &trace, e.to_string()) } Some("VACUUM DATABASE") } };
            let second = match again { None => None, Some(w) => Some((w, actual(&sf, clients).await)) };
            sf.into_kept();
            (first, second)
        })));
        let (first, second) = match checked {
            Ok(x) => x,
            Err(_) => { bad("start again", &trace, format!("it does not come up again: {}", sfv::last_panic_any())); break }
        };
        let (states, all) = match first { Ok(x) => x, Err(e) => { bad("readable", &trace, e); break } };
        for j in 0..clients {
            let which = may[j].iter().position(|s| *s == states[j]);
            let Some(which) = which else { bad("state", &trace, format!("client {j} finds {}\nbut may only find {}", brief(&states[j]), may[j].iter().map(brief).collect::<Vec<_>>().join("\nor "))); break 'rounds };
            if may[j].len() > 1 && may[j][0] != may[j][1] { ctx.count(if which == 0 { "interrupted: not done" } else { "interrupted: done" }, 1) }
            let ops: usize = run.seen[j].ended.len();
            ctx.eval(&(h, round, j), ops > 0);
            model[j] = states[j].clone();
        }
        if let Some((id, n)) = all.iter().find(|x| *x.1 != 1) { bad("shared/twice", &trace, format!("{id} is there {n} times")); break }
        if let Some(x) = shared_sure.iter().find(|x| !all.contains_key(x)) { bad("shared/lost", &trace, format!("{x} was inserted and is not there")); break }
        if let Some(x) = shared_not.iter().find(|x| all.contains_key(x)) { bad("shared/refused", &trace, format!("{x} is there although its INSERT failed")); break }
        for (a, n) in &shared_may {
            let k = (*a..a + n).filter(|x| all.contains_key(x)).count() as i64;
            if k != 0 && k != *n { bad("shared/half", &trace, format!("{k} of the {n} rows of an interrupted INSERT are there")); break 'rounds }
            if k == *n { shared_sure.extend(*a..a + n) }
        }
        if let Some(x) = all.keys().find(|x| !shared_sure.contains(x)) { bad("shared/out of nowhere", &trace, format!("{x} is there and was not inserted")); break }
        match second {
            Some((w, Ok(x))) if x != (states.clone(), all.clone()) => { bad("clean-up", &trace, format!("{w} changes what is there from {}\nto {}", states.iter().map(brief).collect::<String>(), x.0.iter().map(brief).collect::<String>())); break }
            Some((w, Err(e))) => { bad("clean-up", &trace, format!("after {w}: {e}")); break }
            _ => {}
        }
        ctx.count("restarts", 1);
        ctx.seen("states", &format!("{states:?}"));
        ctx.sample(serde_json::json!({ "round": trace.iter().rev().take(12).rev().collect::<Vec<_>>() }));
    }
    drop(rt);
    let _ = std::fs::remove_dir_all(&dir);
}

// ---- every point of a statement: what is on the disk before and after each operation of the store

fn files(dir: &Path) -> BTreeMap<PathBuf, u64> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() { todo.push(p); continue }
            let name = p.strip_prefix(dir).unwrap().to_path_buf();
            // what is in the objects never changes
            let mark = if name.to_string_lossy().starts_with("seafowl.sqlite") { sfv::hash_of(&std::fs::read(&p).unwrap_or_default()) } else { e.metadata().map(|m| m.len()).unwrap_or(0) };
            out.insert(name, mark);
        }
    }
    out
}

#[derive(Default)]
struct Images { seen: BTreeSet<u64>, taken: Vec<PathBuf>, into: PathBuf, n: usize }

fn image(from: &Path, im: &Mutex<Images>) {
    let mut im = im.lock().unwrap();
    let all = files(from);
    if im.taken.len() >= 40 || !im.seen.insert(sfv::hash_of(&all)) { return }
    im.n += 1;
    let to = im.into.join(format!("i{}", im.n));
    for f in all.keys() {
        let t = to.join(f);
        std::fs::create_dir_all(t.parent().unwrap()).unwrap();
        let _ = std::fs::copy(from.join(f), &t);
    }
    im.taken.push(to);
}

fn images(ctx: &Ctx, h: u64) {
    let mut r = ctx.rng_n("images", h);
    let base = scratch();
    let dir = base.join("live");
    let part = *pick(&mut r, &[1usize, 2, 3, 7, 1000]);
    let extra = format!("[misc]\nmax_partition_size = {part}");
    let rt = super::rt(2);
    rt.block_on(async {
        let sf = Sf::open(&dir, &extra).await;
        for q in ["CREATE SCHEMA shared", "CREATE TABLE shared.all (id BIGINT)"] { if let Err(e) = sf.sql(q).await { ctx.violation("setup", format!("{q}: {e}")) } }
        sf.into_kept();
        let (sf, spy) = open_spied(&dir, &extra).await;
        let im = Arc::new(Mutex::new(Images { into: base.clone(), ..Default::default() }));
        let (a, b, d1, d2) = (im.clone(), im.clone(), dir.clone(), dir.clone());
        spy.set_fault(Some(Arc::new(move |_, _| { image(&d1, &a); false })));
        spy.set_after(Some(Arc::new(move || image(&d2, &b))));
        let mut model = State::default();
        let mut trace = vec![format!("max_partition_size {part}")];
        let bad = |sig: &str, trace: &[String], d: String| ctx.violation(sig, format!("{d}\nimages {h}:\n{}", trace.join("\n")));
        for op in script(&mut r, 0, &State::default(), 14, &mut 0) {
            if ctx.used(0.95) { break }
            if let Op::Shared(..) = op { continue }
            image(&dir, &im);
            let Some(then) = op.apply(&model) else { continue };
            trace.push(op.sql());
            if let Err(e) = crate::sf::sql(&sf, &op.sql()).await { bad("refused", &trace, e.to_string()); break }
            image(&dir, &im);
            let taken = std::mem::take(&mut im.lock().unwrap().taken);
            ctx.count(&format!("crash points of {}", op.name()), taken.len() as u64);
            let mut done = false;
            for (i, at) in taken.iter().enumerate() {
                let what = || format!("killed at point {} of {} of the last statement", i + 1, taken.len());
                let opened = futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(Sf::open(at, &extra))).await;
                let Ok(s) = opened else { bad("start again", &trace, format!("{}: it does not come up: {}", what(), sfv::last_panic_any())); break };
                let now = match actual(&s, 1).await { Ok(x) => x.0[0].clone(), Err(e) => { bad("readable", &trace, format!("{}: {e}", what())); break } };
                ctx.eval(&(h, trace.len(), i), true);
                let (before, after) = (now == model, now == then);
                if !before && !after { bad("state", &trace, format!("{}, it finds {}\nbut may only find {}\nor {}", what(), brief(&now), brief(&model), brief(&then))); break }
                if done && !after { bad("undone", &trace, format!("{}: it is no longer done", what())); break }
                if i + 1 == taken.len() && !after { bad("not done", &trace, format!("{}: it was acknowledged and is not done: {}", what(), brief(&now))); break }
                if model != then { done |= after; if i + 1 < taken.len() { ctx.count(if after { "points: done" } else { "points: not done" }, 1) } }
                // it goes on from there
                let mut now = now;
                for _ in 0..r.gen_range(0..3) {
                    if chance(&mut r, 0.4) { gc_databases(&s.ctx, s.ctx.internal_object_store.clone().unwrap(), None).await; trace.push("  (clean-up)".into()) }
                    let next = if before && chance(&mut r, 0.5) { Some(op.clone()) } else { script(&mut r, 0, &now, 1, &mut 0).pop() };
                    let Some(next) = next.filter(|n| !matches!(n, Op::Shared(..))) else { continue };
                    let Some(expect) = next.apply(&now) else { continue };
                    trace.push(format!("  {} and then {}", what(), next.sql()));
                    if let Err(e) = s.sql(&next.sql()).await { bad("refused afterwards", &trace, e.to_string()); break }
                    match actual(&s, 1).await {
                        Ok(x) if x.0[0] == expect => {}
                        Ok(x) => { bad("state afterwards", &trace, format!("it finds {}\ninstead of {}", brief(&x.0[0]), brief(&expect))); break }
                        Err(e) => { bad("readable afterwards", &trace, e); break }
                    }
                    ctx.count("statements after a restart", 1);
                    now = expect;
                }
                while trace.last().is_some_and(|t| t.starts_with("  ")) && !ctx.violated() { trace.pop(); }
                drop(s);
            }
            for t in &taken { let _ = std::fs::remove_dir_all(t); }
            if ctx.violated() { break }
            model = then;
        }
    });
    drop(rt);
    let _ = std::fs::remove_dir_all(&base);
}

pub fn c56(ctx: &Ctx) {
    ctx.rule("acknowledged statements survive kill -9; an interrupted one is done or not done, never half; clean-up and further statements work on what is left");
    let next = AtomicU64::new(0);
    let n = ctx.n(32, 3000) as u64;
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| loop {
                let h = next.fetch_add(1, SeqCst);
                if h >= n || ctx.used(0.9) || ctx.violated() { break }
                let f = if h % 3 == 2 { history } else { images };
                if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx, h))) { ctx.stopped(p) }
            });
        }
    });
}
