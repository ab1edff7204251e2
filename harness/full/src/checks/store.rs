//! C30, C31: the on-disk cache in front of an object store.
use crate::spy::{Call, Spy};
use bytes::Bytes;
use futures::{FutureExt, StreamExt, TryStreamExt};
use object_store::{memory::InMemory, path::Path, GetOptions, GetRange, ObjectStore, PutPayload};
use seafowl::object_store::cache::CachingObjectStore;
use sfv::{chance, pick, rand::rngs::StdRng, rand::Rng, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::panic::AssertUnwindSafe;
use std::path::{Path as FsPath, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn body(r: &mut StdRng, n: usize) -> Bytes {
    (0..n).map(|_| r.gen::<u8>()).collect::<Vec<_>>().into()
}

fn tmpdir() -> PathBuf {
    let base = std::env::var("SFV_WORK").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("c{:016x}", sfv::rand::random::<u64>()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn files(dir: &FsPath) -> Vec<(PathBuf, u64)> {
    let mut out = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            match e.metadata() {
                Ok(m) if m.is_dir() => todo.push(e.path()),
                Ok(m) => out.push((e.path(), m.len())),
                Err(_) => {}
            }
        }
    }
    out
}

const NAMES: &[&str] = &["a", "a/b.parquet", "some host/x%20y/z.csv", "ünï/ço.d", "a-0-16", "deep/er/and/deeper/0001.json", "A"];

fn rand_range(r: &mut StdRng, size: usize, chunk: usize) -> Range<usize> {
    let edge = |r: &mut StdRng| -> usize {
        match r.gen_range(0..6) {
            0 => 0,
            1 => size,
            2 => (r.gen_range(0..=size / chunk + 2)) * chunk,
            3 => ((r.gen_range(0..=size / chunk + 1)) * chunk + 1).saturating_sub(r.gen_range(0..3)),
            4 => size + r.gen_range(0..3 * chunk + 2),
            _ => r.gen_range(0..=size),
        }
    };
    let (a, b) = (edge(r), edge(r));
    let (a, b) = (a.min(b), a.max(b));
    if a == b && chance(r, 0.8) { a..a + r.gen_range(1..=2 * chunk) } else { a..b }
}

#[derive(PartialEq)]
enum Outcome { Right, Refused }

/// the verdict on one answer
fn judge(ctx: &Ctx, got: &Result<object_store::Result<Bytes>, String>, obj: Option<&Bytes>, range: &Range<usize>, fault_possible: bool, what: &str) -> Outcome {
    let place = |sz: usize| {
        if range.is_empty() { "empty-range" } else if range.start >= sz { "past-the-end" } else if range.end > sz { "across-the-end" } else { "inside" }
    };
    match (got, obj) {
        (Err(p), _) => {
            ctx.violation(&format!("cache-panic-{}", obj.map(|o| place(o.len())).unwrap_or("missing")), format!("{what}: range {range:?}, object of {:?} bytes: {p}", obj.map(|o| o.len())));
            Outcome::Refused
        }
        (Ok(Ok(b)), None) => {
            ctx.check(b.is_empty() && range.is_empty(), "cache-bytes-of-missing-object", || format!("{what}: {range:?} of a missing object gave {} bytes", b.len()));
            Outcome::Refused
        }
        (Ok(Err(_)), None) => Outcome::Refused,
        (Ok(Ok(b)), Some(o)) => {
            let want = o.slice(range.start.min(o.len())..range.end.min(o.len()).max(range.start.min(o.len())));
            ctx.check(*b == want, &format!("cache-wrong-bytes-{}", place(o.len())), || format!("{what}: {range:?} of {} bytes gave {} bytes, {} expected; first difference at {:?}", o.len(), b.len(), want.len(), b.iter().zip(want.iter()).position(|(x, y)| x != y)));
            Outcome::Right
        }
        (Ok(Err(e)), Some(o)) => {
            ctx.check(range.is_empty() || range.start >= o.len() || fault_possible, &format!("cache-error-{}", place(o.len())), || format!("{what}: {range:?} of {} bytes failed: {e}", o.len()));
            Outcome::Refused
        }
    }
}

async fn get(s: &CachingObjectStore, p: &Path, r: Range<usize>) -> Result<object_store::Result<Bytes>, String> {
    match tokio::time::timeout(Duration::from_secs(60), AssertUnwindSafe(s.get_range(p, r)).catch_unwind()).await {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(p)) => Err(format!("panicked: {} / {}", sfv::panic_text(p), sfv::last_panic_any())),
        Err(_) => Err("no answer in 60 s".into()),
    }
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("one evaluation = one answer of the cached store compared with the object itself; distinct by (chunk size, object size, range, capacity, cache state label)");
    ctx.assume("objects do not change while cached (Seafowl's table files are immutable); an empty range may be refused or give no bytes, as may a range that starts past the end");
    let rt = super::rt(6);
    rt.block_on(async {
        let n = ctx.n(160, 4000);
        for i in 0..n {
            if ctx.used(0.5) { break }
            c30_sequence(ctx, i as u64).await;
        }
        let n = ctx.n(24, 500);
        for i in 0..n {
            if ctx.used(0.85) { break }
            c30_concurrent(ctx, i as u64).await;
        }
        for i in 0..ctx.n(8, 60) {
            c30_delegation(ctx, i as u64).await;
        }
    });
}

async fn c30_sequence(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("seq", i);
    let chunk = *pick(&mut r, &[1usize, 2, 5, 16, 33, 64]);
    let mem = Arc::new(InMemory::new());
    let spy = Spy::new(mem.clone());
    let mut objs: BTreeMap<String, Bytes> = Default::default();
    for name in NAMES.iter().take(r.gen_range(1..=NAMES.len())) {
        let size = match r.gen_range(0..5) { 0 => chunk * r.gen_range(0..5), 1 => chunk * r.gen_range(1..5) + 1, 2 => (chunk * r.gen_range(1..5)).saturating_sub(1), 3 => 0, _ => r.gen_range(0..6 * chunk) };
        let b = body(&mut r, size);
        mem.put(&Path::from(*name), PutPayload::from_bytes(b.clone())).await.unwrap();
        objs.insert(name.to_string(), b);
    }
    let cap = *pick(&mut r, &[0u64, 1, 3, 1000]) * chunk as u64;
    let ttl = if chance(&mut r, 0.2) { Duration::from_millis(30) } else { Duration::from_secs(1000) };
    let dir = tmpdir();
    let store = CachingObjectStore::new(spy.clone(), &dir, chunk as u64, cap, ttl);
    let sibling = CachingObjectStore::new_from_sibling(&store, spy.clone());
    let on = Arc::new(AtomicU64::new(0));
    let o2 = on.clone();
    let salt: u64 = r.gen();
    let tick = AtomicU64::new(0);
    spy.set_fault(Some(Arc::new(move |op, _| op == "get_range" && sfv::hash_of(&(salt, tick.fetch_add(1, Ordering::SeqCst))) % 100 < o2.load(Ordering::SeqCst))));
    let names: Vec<String> = objs.keys().cloned().chain(["missing".to_string()]).collect();
    for step in 0..r.gen_range(5..40) {
        on.store(if chance(&mut r, 0.15) { 50 } else { 0 }, Ordering::SeqCst);
        let mut state = "plain";
        match r.gen_range(0..12) {
            0 => {
                // cached files vanish
                for (f, _) in files(&dir) {
                    if chance(&mut r, 0.5) { let _ = std::fs::remove_file(f); }
                }
                state = "files-removed";
            }
            1 => { tokio::time::sleep(Duration::from_millis(r.gen_range(1..40))).await; state = "waited"; }
            2 => tokio::task::yield_now().await,
            _ => {}
        }
        let name = pick(&mut r, &names).clone();
        let obj = objs.get(&name);
        let range = rand_range(&mut r, obj.map(|o| o.len()).unwrap_or(20), chunk);
        let before = spy.faults_hit.load(Ordering::SeqCst);
        let s = if chance(&mut r, 0.2) { &sibling } else { &store };
        let got = get(s, &Path::from(name.as_str()), range.clone()).await;
        let faulted = spy.faults_hit.load(Ordering::SeqCst) > before;
        let what = format!("seed {} sequence {i} step {step} chunk {chunk} capacity {cap} ({state}) object {name:?}", ctx.seed);
        judge(ctx, &got, obj, &range, faulted, &what);
        if faulted { ctx.count("answers_under_injected_failures", 1); }
        ctx.count("cache_answers", 1);
        ctx.eval(&(chunk, obj.map(|o| o.len()), range.start, range.end, cap, state), true);
        ctx.sample(sfv::serde_json::json!({"object": name, "size": obj.map(|o| o.len()), "range": [range.start, range.end], "chunk": chunk, "ok": matches!(got, Ok(Ok(_)))}));
        if chance(&mut r, 0.1) && let Some(o) = obj && o.len() > 1 {
            // get_ranges goes through the same path
            on.store(0, Ordering::SeqCst);
            let rs: Vec<Range<usize>> = (0..r.gen_range(1..5)).map(|_| { let a = r.gen_range(0..o.len()); a..r.gen_range(a + 1..=o.len()) }).collect();
            match AssertUnwindSafe(store.get_ranges(&Path::from(name.as_str()), &rs)).catch_unwind().await {
                Ok(Ok(bs)) => { ctx.check(bs.len() == rs.len() && bs.iter().zip(&rs).all(|(b, r)| *b == o.slice(r.clone())), "cache-get-ranges", || format!("{what}: get_ranges {rs:?}")); }
                Ok(Err(e)) => ctx.violation("cache-get-ranges-error", format!("{what}: get_ranges {rs:?}: {e}")),
                Err(p) => ctx.violation("cache-get-ranges-panic", format!("{what}: {}", sfv::panic_text(p))),
            }
            ctx.count("get_ranges", 1);
        }
    }
    drop((store, sibling));
    let _ = std::fs::remove_dir_all(&dir);
}

async fn c30_concurrent(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("conc", i);
    let chunk = *pick(&mut r, &[8usize, 64, 65536, 1 << 20]);
    let mem = Arc::new(InMemory::new());
    let spy = Spy::new(mem.clone());
    let mut objs = vec![];
    for name in NAMES.iter().take(2) {
        let size = chunk * r.gen_range(2..6) + *pick(&mut r, &[0usize, 1, 3]);
        let b = body(&mut r, size);
        mem.put(&Path::from(*name), PutPayload::from_bytes(b.clone())).await.unwrap();
        objs.push((Path::from(*name), b));
    }
    let objs = Arc::new(objs);
    let cap = *pick(&mut r, &[1u64, 2, 4, 1000]) * chunk as u64;
    spy.delay_us.store(*pick(&mut r, &[0u64, 200, 2000]), Ordering::Relaxed);
    let dir = tmpdir();
    let ttl = Duration::from_millis(*pick(&mut r, &[5u64, 50, 1_000_000]));
    let store = Arc::new(CachingObjectStore::new(spy.clone(), &dir, chunk as u64, cap, ttl));
    let failing = chance(&mut r, 0.3);
    if failing {
        let t = AtomicU64::new(0);
        spy.set_fault(Some(Arc::new(move |op, _| op == "get_range" && t.fetch_add(1, Ordering::SeqCst) % 7 == 3)));
    }
    let reqs = if chunk >= 65536 { 25 } else { 60 };
    let mut hs = vec![];
    for t in 0..8u64 {
        let (ctx, store, objs, dir) = (ctx.clone(), store.clone(), objs.clone(), dir.clone());
        let mut r = ctx.rng_n("conc-task", i * 100 + t);
        hs.push(tokio::spawn(async move {
            for k in 0..reqs {
                let (p, o) = pick(&mut r, &objs[..]);
                let range = loop { let x = rand_range(&mut r, o.len(), chunk); if !x.is_empty() { break x } };
                let got = get(&store, p, range.clone()).await;
                judge(&ctx, &got, Some(o), &range, failing, &format!("seed {} concurrent {i} task {t} step {k} chunk {chunk} capacity {cap} ttl {ttl:?}", ctx.seed));
                ctx.count("concurrent_answers", 1);
                ctx.eval(&(chunk, o.len(), range.start, range.end, cap, "concurrent"), true);
                if chance(&mut r, 0.02) {
                    for (f, _) in files(&dir).into_iter().take(2) { let _ = std::fs::remove_file(f); }
                }
            }
        }));
    }
    for h in hs {
        if let Err(e) = h.await { ctx.violation("cache-task-panic", format!("{e}")); }
    }
    ctx.count("concurrent_scenarios", 1);
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
}

async fn listing(s: &dyn ObjectStore, prefix: Option<&Path>) -> Result<BTreeSet<(String, usize)>, String> {
    s.list(prefix).map_ok(|m| (m.location.to_string(), m.size)).try_collect().await.map_err(|e| e.to_string())
}

/// everything but ranged reads is the inner store's own answer
async fn c30_delegation(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("deleg", i);
    let plain = Arc::new(InMemory::new());
    let inner = Arc::new(InMemory::new());
    let dir = tmpdir();
    let store = CachingObjectStore::new(inner.clone(), &dir, 16, 160, Duration::from_secs(100));
    let path = |r: &mut StdRng| Path::from(format!("{}/{}", pick(r, &["p", "q", "p/s"]), r.gen_range(0..6)));
    let mut trace = vec![];
    for _ in 0..60 {
        let op = r.gen_range(0..9);
        let (p, q) = (path(&mut r), path(&mut r));
        let fmt = |x: Result<String, object_store::Error>| x.map_err(|e| match e { object_store::Error::NotFound { .. } => "not found".to_string(), object_store::Error::AlreadyExists { .. } => "exists".into(), e => format!("other {e}") });
        let b = { let n = r.gen_range(0..50); body(&mut r, n) };
        let gr = pick(&mut r, &[GetRange::Bounded(1..5), GetRange::Suffix(3), GetRange::Offset(2)]).clone();
        let mut res = vec![];
        for s in [plain.as_ref() as &dyn ObjectStore, &store as &dyn ObjectStore] {
            let x = match op {
                0 | 1 => fmt(s.put(&p, PutPayload::from_bytes(b.clone())).await.map(|_| "put".into())),
                2 => fmt(match s.get(&p).await { Ok(g) => g.bytes().await.map(|b| format!("{b:?}")), Err(e) => Err(e) }),
                3 => fmt(s.head(&p).await.map(|m| format!("{} {}", m.location, m.size))),
                4 => fmt(s.delete(&p).await.map(|_| "deleted".into())),
                5 => fmt(s.copy(&p, &q).await.map(|_| "copied".into())),
                6 => fmt(s.copy_if_not_exists(&p, &q).await.map(|_| "copied".into())),
                7 => fmt(s.rename(&p, &q).await.map(|_| "renamed".into())),
                _ => {
                    let o = GetOptions { range: Some(gr.clone()), ..Default::default() };
                    fmt(match s.get_opts(&p, o).await { Ok(g) => g.bytes().await.map(|b| format!("{b:?}")), Err(e) => Err(e) }.map_err(|e| if matches!(e, object_store::Error::NotFound { .. }) { e } else { object_store::Error::NotImplemented }))
                }
            };
            res.push(x);
        }
        trace.push(format!("{op} {p} {q}"));
        ctx.check(res[0] == res[1], &format!("cache-delegation-op{op}"), || format!("without cache {:?}, with {:?} after {trace:?}", res[0], res[1]));
        let prefix = if chance(&mut r, 0.5) { Some(Path::from("p")) } else { None };
        let (a, b) = (listing(plain.as_ref(), prefix.as_ref()).await, listing(&store, prefix.as_ref()).await);
        ctx.check(a == b && a.is_ok(), "cache-delegation-list", || format!("{a:?} {b:?}"));
        let f = |l: object_store::ListResult| (l.objects.iter().map(|o| o.location.to_string()).collect::<BTreeSet<_>>(), l.common_prefixes.iter().map(|p| p.to_string()).collect::<BTreeSet<_>>());
        let (a, b) = (plain.list_with_delimiter(prefix.as_ref()).await.map(f), store.list_with_delimiter(prefix.as_ref()).await.map(f));
        ctx.check(matches!((&a, &b), (Ok(a), Ok(b)) if a == b), "cache-delegation-list-delimiter", || format!("{a:?} {b:?}"));
        ctx.eval(&("delegation", op, res[0].is_ok()), true);
        ctx.count("delegated_operations", 1);
    }
    // delete_stream
    let all: Vec<Path> = inner.list(None).map_ok(|m| m.location).try_collect().await.unwrap();
    let (del, keep): (Vec<_>, Vec<_>) = all.into_iter().partition(|p| p.as_ref().starts_with("p/"));
    let out: Vec<_> = store.delete_stream(futures::stream::iter(del.clone().into_iter().map(Ok)).boxed()).collect().await;
    let left: BTreeSet<String> = inner.list(None).map_ok(|m| m.location.to_string()).try_collect().await.unwrap();
    ctx.check(out.iter().all(|o| o.is_ok()) && left == keep.iter().map(|k| k.to_string()).collect(), "cache-delegation-delete-stream", || format!("{out:?} {left:?}"));
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
}

// ------------------------------------------------------------------------------------------ C31

pub fn c31(ctx: &Ctx) {
    ctx.rule("one evaluation = one request's fetches judged against the chunks known to be cached, or one capacity / expiry / recency / clean-up observation; distinct by (kind, chunk size, object size, range or parameters)");
    ctx.assume("requests of one phase are issued one after another; concurrent requests for the same missing chunk may both fetch it (documented best effort)");
    let rt = super::rt(4);
    rt.block_on(async {
        for i in 0..ctx.n(60, 1500) {
            if ctx.used(0.4) { break }
            c31_fetches(ctx, i as u64).await;
        }
        let (ctx1, ctx2, ctx3) = (ctx.clone(), ctx.clone(), ctx.clone());
        let n = ctx.n(8, 60) as u64;
        let a = tokio::spawn(async move { futures::stream::iter(0..n).for_each_concurrent(4, |i| { let c = ctx1.clone(); async move { c31_capacity(&c, i).await } }).await });
        let b = tokio::spawn(async move { futures::stream::iter(0..n).for_each_concurrent(4, |i| { let c = ctx2.clone(); async move { c31_ttl(&c, i).await } }).await });
        let c = tokio::spawn(async move { futures::stream::iter(0..n / 2).for_each_concurrent(4, |i| { let c = ctx3.clone(); async move { c31_recency(&c, i).await } }).await });
        for h in [a, b, c] {
            if let Err(e) = h.await { ctx.violation("cache-phase-panic", format!("{e} {}", sfv::last_panic_any())); }
        }
    });
}

/// with room for everything, what is fetched is what is missing, and once
async fn c31_fetches(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("fetch", i);
    let chunk = *pick(&mut r, &[2usize, 5, 16, 64]);
    let mem = Arc::new(InMemory::new());
    let spy = Spy::new(mem.clone());
    let size = chunk * r.gen_range(2..20) + *pick(&mut r, &[0, 1, chunk - 1]);
    let o = body(&mut r, size);
    let (p, p2) = (Path::from("x/y"), Path::from("x/y2"));
    mem.put(&p, PutPayload::from_bytes(o.clone())).await.unwrap();
    let o2 = body(&mut r, size);
    mem.put(&p2, PutPayload::from_bytes(o2.clone())).await.unwrap();
    let dir = tmpdir();
    let rec = metrics_exporter_prometheus::PrometheusBuilder::new().build_recorder();
    let handle = rec.handle();
    let store = metrics::with_local_recorder(&rec, || CachingObjectStore::new(spy.clone(), &dir, chunk as u64, 1 << 30, Duration::from_secs(1000)));
    let mut have: BTreeMap<String, BTreeSet<usize>> = Default::default();
    let (mut calls, mut asked, mut fetched) = (0u64, 0u64, 0u64);
    for step in 0..r.gen_range(8..30) {
        let path = if chance(&mut r, 0.25) { &p2 } else { &p };
        let a = r.gen_range(0..size);
        let b = match r.gen_range(0..3) { 0 => (a + r.gen_range(1..=chunk)).min(size), 1 => r.gen_range(a + 1..=size), _ => (a + r.gen_range(1..=4 * chunk)).min(size) };
        let have = have.entry(path.to_string()).or_default();
        let hull: Vec<usize> = (a / chunk..=(b - 1) / chunk).collect();
        let missing: BTreeSet<usize> = hull.iter().copied().filter(|c| !have.contains(c)).collect();
        let runs = missing.iter().filter(|c| **c == 0 || !missing.contains(&(**c - 1))).count();
        spy.take();
        let got = get(&store, path, a..b).await;
        judge(ctx, &got, Some(if path == &p { &o } else { &o2 }), &(a..b), false, "fetch phase");
        let log: Vec<Call> = spy.take();
        calls += 1;
        asked += (b - a) as u64;
        fetched += log.iter().map(|c| c.bytes as u64).sum::<u64>();
        let what = || format!("seed {} fetch {i} step {step}: chunk {chunk}, object of {size} bytes, request {a}..{b}, chunks cached {have:?}, fetched {:?}", ctx.seed, log.iter().map(|c| c.range.clone()).collect::<Vec<_>>());
        ctx.check(!missing.is_empty() || log.is_empty(), "cache-hit-contacts-store", what);
        ctx.check(log.len() <= runs, "cache-misses-not-merged", || format!("{} requests for {runs} runs; {}", log.len(), what()));
        for c in &log {
            let Some(rg) = &c.range else { ctx.violation("cache-odd-request", what()); continue };
            ctx.check(rg.start / chunk >= hull[0] && rg.end.min(size) <= (hull[hull.len() - 1] + 1) * chunk, "cache-fetches-beyond-request", what);
            let touched = rg.start / chunk..=(rg.end.min(size).max(rg.start + 1) - 1) / chunk;
            ctx.check(touched.clone().all(|c| missing.contains(&c)), "cache-refetches-cached-chunk", what);
        }
        if matches!(got, Ok(Ok(_))) { have.extend(hull.iter().copied()); }
        ctx.eval(&("fetch", chunk, size, a, b, missing.len()), true);
        ctx.count(if missing.is_empty() { "pure_hits" } else { "requests_with_misses" }, 1);
        ctx.count("fetches", log.len() as u64);
        if chance(&mut r, 0.2) { tokio::time::sleep(Duration::from_millis(3)).await; }
    }
    // the counters say the same
    let text = handle.render();
    for (name, want) in [("seafowl_object_store_cache_get_range_requests_total", calls), ("seafowl_object_store_cache_get_range_requested_bytes_total", asked), ("seafowl_object_store_cache_get_range_read_bytes_total", fetched)] {
        let v = metric(&text, name);
        ctx.check(v == Some(want as f64), "cache-counters", || format!("{name} is {v:?}, {want} expected"));
        ctx.count("counters_compared", 1);
    }
    drop(store);
    let t = Instant::now();
    while dir.exists() && t.elapsed() < Duration::from_secs(10) { tokio::time::sleep(Duration::from_millis(5)).await; }
    ctx.check(!dir.exists(), "cache-directory-left-behind", || format!("{} files remain after the store is gone", files(&dir).len()));
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn metric(text: &str, name: &str) -> Option<f64> {
    text.lines().find_map(|l| l.strip_prefix(name).and_then(|v| v.strip_prefix(' ')).and_then(|v| v.trim().parse().ok()))
}

/// keep the cache's clock-driven upkeep going by hits on one cached chunk
async fn settle(store: &CachingObjectStore, poke: &Path, done: impl Fn() -> bool, limit: Duration) -> bool {
    let t = Instant::now();
    loop {
        tokio::time::sleep(Duration::from_millis(60)).await;
        let _ = store.get_range(poke, 0..1).await;
        if done() { return true }
        if t.elapsed() > limit { return false }
    }
}

async fn c31_capacity(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("cap", i);
    let chunk = *pick(&mut r, &[16usize, 100, 4096]);
    let mem = Arc::new(InMemory::new());
    let mut paths = vec![];
    for k in 0..3 {
        let size = chunk * r.gen_range(5..30) + 3;
        let p = Path::from(format!("o{k}"));
        mem.put(&p, PutPayload::from_bytes(body(&mut r, size))).await.unwrap();
        paths.push((p, size));
    }
    mem.put(&Path::from("poke"), PutPayload::from_static(b"z")).await.unwrap();
    let cap = chunk as u64 * r.gen_range(2..10) + r.gen_range(0..chunk as u64);
    let dir = tmpdir();
    let store = Arc::new(CachingObjectStore::new(mem.clone(), &dir, chunk as u64, cap, Duration::from_secs(1000)));
    let mut hs = vec![];
    for t in 0..r.gen_range(1..5u64) {
        let (store, paths) = (store.clone(), paths.clone());
        let mut r = ctx.rng_n("cap-task", i * 10 + t);
        hs.push(tokio::spawn(async move {
            for _ in 0..40 {
                let (p, size) = pick(&mut r, &paths);
                let a = r.gen_range(0..*size);
                let _ = store.get_range(p, a..r.gen_range(a + 1..=*size)).await;
                if chance(&mut r, 0.2) { tokio::time::sleep(Duration::from_millis(2)).await; }
            }
        }));
    }
    let tasks = hs.len();
    for h in hs { let _ = h.await; }
    let total = || files(&dir).iter().map(|f| f.1).sum::<u64>();
    let peak = total();
    let ok = settle(&store, &Path::from("poke"), || total() <= cap, Duration::from_secs(20)).await;
    ctx.check(ok, "cache-over-capacity", || format!("seed {} capacity {cap}, {} bytes on disk in {} files 20 s after the last request", ctx.seed, total(), files(&dir).len()));
    ctx.eval(&("capacity", chunk, cap, tasks), true);
    ctx.count("capacity_observations", 1);
    ctx.count("files_at_rest", files(&dir).len() as u64);
    if peak > cap { ctx.count("over_capacity_before_settling", 1); }
    ctx.check(files(&dir).len() > 0, "cache-keeps-nothing", || format!("nothing is left on disk with capacity {cap} and chunks of {chunk}"));
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
}

async fn c31_ttl(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("ttl", i);
    let chunk = *pick(&mut r, &[16usize, 64]);
    let mem = Arc::new(InMemory::new());
    let spy = Spy::new(mem.clone());
    let size = chunk * r.gen_range(2..8);
    let p = Path::from("old");
    mem.put(&p, PutPayload::from_bytes(body(&mut r, size))).await.unwrap();
    mem.put(&Path::from("poke"), PutPayload::from_static(b"z")).await.unwrap();
    let ttl = Duration::from_millis(r.gen_range(300..900));
    let dir = tmpdir();
    let store = CachingObjectStore::new(spy.clone(), &dir, chunk as u64, 1 << 20, ttl);
    let started = Instant::now();
    let _ = store.get_range(&p, 0..size).await;
    // reading it again does not make it live longer
    let _ = settle(&store, &Path::from("poke"), || false, ttl / 2).await;
    spy.take();
    let _ = store.get_range(&p, 0..size).await;
    let hit = spy.take().iter().all(|c| c.path != "old");
    if started.elapsed() < ttl { ctx.check(hit, "cache-expires-early", || format!("refetched after {:?}, entries live {ttl:?}", started.elapsed())); }
    tokio::time::sleep(ttl + Duration::from_millis(100)).await;
    let ok = settle(&store, &Path::from("poke"), || files(&dir).iter().map(|f| f.1).sum::<u64>() <= 1, Duration::from_secs(20)).await;
    ctx.check(ok, "cache-expired-files-stay", || format!("{:?} on disk after entries of {ttl:?} expired", files(&dir)));
    spy.take();
    let got = store.get_range(&p, 0..size).await;
    let n = spy.take().iter().filter(|c| c.path == "old").count();
    ctx.check(n > 0 && got.is_ok(), "cache-serves-expired", || format!("entries live {ttl:?}; read without contacting the store after {:?}", started.elapsed()));
    ctx.eval(&("ttl", chunk, size), true);
    ctx.count("expiry_observations", 1);
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
}

/// over capacity, what was used last stays
async fn c31_recency(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("lru", i);
    let chunk = 32usize;
    let mem = Arc::new(InMemory::new());
    let spy = Spy::new(mem.clone());
    let k = r.gen_range(3..6usize);
    for j in 0..=k {
        mem.put(&Path::from(format!("o{j}")), PutPayload::from_bytes(body(&mut r, chunk))).await.unwrap();
    }
    let dir = tmpdir();
    let store = CachingObjectStore::new(spy.clone(), &dir, chunk as u64, (chunk * k) as u64, Duration::from_secs(1000));
    let pause = || tokio::time::sleep(Duration::from_millis(420));
    for j in 0..k {
        let _ = store.get_range(&Path::from(format!("o{j}")), 0..chunk).await;
        let t = Instant::now();
        while files(&dir).len() <= j && t.elapsed() < Duration::from_secs(10) { tokio::time::sleep(Duration::from_millis(10)).await; }
        pause().await;
    }
    // use all but one again, then add another
    let victim = r.gen_range(0..k);
    for j in (0..k).filter(|j| *j != victim) {
        let _ = store.get_range(&Path::from(format!("o{j}")), 0..chunk).await;
        pause().await;
    }
    let _ = store.get_range(&Path::from(format!("o{k}")), 0..chunk).await;
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(2) {
        pause().await;
        let _ = store.get_range(&Path::from(format!("o{k}")), 0..chunk).await;
    }
    spy.take();
    for j in (0..=k).filter(|j| *j != victim) {
        let _ = store.get_range(&Path::from(format!("o{j}")), 0..1).await;
        let log = spy.take();
        ctx.check(log.is_empty(), "cache-evicts-recently-used", || format!("o{j} had to be fetched again, though o{victim} was the least recently used of {k}"));
    }
    ctx.eval(&("recency", k, victim), true);
    ctx.count("recency_observations", 1);
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
}
