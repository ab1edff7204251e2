//! C64: the metrics, read the way a monitoring system reads them, against what was done
use super::flight::{query, redeem, ticket, Server};
use super::http::{ask, multipart, routes};
use super::sync::{batch, changes, columns, shape, split, sync_schema, Map, Queue, Shape};
use crate::sf::Sf;
use arrow_flight::Ticket;
use seafowl::config::schema::{AccessSettings, HttpFrontend, Metrics};
use seafowl::sync::{verif::SeafowlDataSyncWriter, LakehouseSyncTarget};
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, Ctx};
use std::collections::BTreeMap;
use std::sync::Arc;

fn pick<T: Clone>(r: &mut StdRng, of: &[T]) -> T { of[r.gen_range(0..of.len())].clone() }

const W: &str = "seafowl_changeset_writer_";
const RESERVED: &str = "seafowl_datafusion_memory_pool_reserved_bytes_current";

/// what the exporter says now, by name and labels as it prints them
async fn scrape(url: &str) -> Result<BTreeMap<String, f64>, String> {
    let c = reqwest::Client::builder().no_proxy().build().unwrap();
    let t = c.get(url).send().await.map_err(|e| e.to_string())?.error_for_status().map_err(|e| e.to_string())?.text().await.map_err(|e| e.to_string())?;
    let mut out = BTreeMap::new();
    for l in t.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()) {
        let (k, v) = l.rsplit_once(' ').ok_or(format!("line {l:?}"))?;
        let v: f64 = v.parse().map_err(|_| format!("line {l:?}"))?;
        if out.insert(k.to_string(), v).is_some() { return Err(format!("{k} twice")) }
    }
    Ok(out)
}
/// a name with labels, whatever order they are printed in
fn labelled<'a>(m: &'a BTreeMap<String, f64>, name: &'a str) -> impl Iterator<Item = (BTreeMap<String, String>, f64)> + 'a {
    m.iter().filter_map(move |(k, v)| {
        let rest = k.strip_prefix(name)?.strip_prefix('{')?.strip_suffix('}')?;
        Some((rest.split("\",").filter(|x| !x.is_empty()).filter_map(|p| p.split_once("=\"")).map(|(a, b)| (a.to_string(), b.trim_end_matches('"').to_string())).collect(), *v))
    })
}
/// scrapes until it is as wanted: what a request leaves behind is dropped a moment after its answer
async fn settled(url: &str, ok: impl Fn(&BTreeMap<String, f64>) -> bool) -> Result<BTreeMap<String, f64>, String> {
    let until = std::time::Instant::now() + std::time::Duration::from_secs(5);
    loop {
        let m = scrape(url).await?;
        if ok(&m) || std::time::Instant::now() > until { return Ok(m) }
        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
    }
}
fn now() -> f64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as f64 }

pub fn c64(ctx: &Ctx) {
    ctx.rule("one evaluation = all metrics of one part of the server, read over HTTP after one request, message or flush, compared with what was done; distinct by (part, action, outcome)");
    ctx.assume("how many rows squashing removes is its own business (C60): the check is that rows received are either squashed away, flushed or in memory");
    super::rt(4).block_on(async {
        let mut r = ctx.rng("c64");
        // the real exporter
        let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        seafowl::config::context::setup_metrics(&Metrics { host: "127.0.0.1".into(), port });
        let url = format!("http://127.0.0.1:{port}/metrics");
        let mut up = Err("never tried".to_string());
        for _ in 0..100 { up = scrape(&url).await; if up.is_ok() { break } tokio::time::sleep(std::time::Duration::from_millis(50)).await; }
        if let Err(e) = up { ctx.violation("metrics-not-served", e); return }
        for case in 0..ctx.n(70, 4000) {
            if ctx.used(0.4) || ctx.violated() { break }
            syncs(ctx, &mut r, &url, case).await;
        }
        cache(ctx, &mut r, &url).await;
        http(ctx, &mut r, &url).await;
        grpc(ctx, &mut r, &url).await;
    });
}

async fn syncs(ctx: &Ctx, r: &mut StdRng, url: &str, case: usize) {
    let (lag, bytes, pending) = (pick(r, &[0u64, 100_000, 100_000]), pick(r, &[1u64, 3_000, 20_000, 1 << 30]), pick(r, &[2usize, 4, 1000]));
    let (sf, spy) = Sf::spied(&format!("[misc.sync_conf]\nmax_replication_lag_s = {lag}\nmax_in_memory_bytes = {bytes}\nmax_syncs_per_url = {pending}")).await;
    let shapes: Vec<Shape> = (0..r.gen_range(1..4)).map(|_| shape(r)).collect();
    let mut model: Vec<(Map, Queue)> = shapes.iter().map(|_| (Map::new(), Queue::default())).collect();
    let origin = format!("metrics origin {case}");
    let clock = std::time::Instant::now();
    let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
    let Ok(start) = scrape(url).await else { ctx.inconclusive("no metrics"); return };
    let began = now();
    // gauges of writers that came before are where they left them: nothing was in memory
    for g in ["in_memory_bytes_current", "in_memory_rows_current"] {
        ctx.check(start.get(&format!("{W}{g}")).is_none_or(|v| *v == 0.0), "metrics-sync-left-over", || format!("{g} is {:?} though all is flushed", start.get(&format!("{W}{g}"))));
    }
    let delta = |m: &BTreeMap<String, f64>, n: &str| m.get(&format!("{W}{n}")).copied().unwrap_or(0.0) - start.get(&format!("{W}{n}")).copied().unwrap_or(0.0);
    let (mut rows_in, mut bytes_in, mut flushed_rows) = (0f64, 0f64, 0f64);
    let mut log = format!("case {case}: lag {lag}, bytes {bytes}, pending {pending}\n");
    let steps = r.gen_range(3..12);
    let mut seq = 0;
    for step in 0..=steps {
        let last = step == steps;
        if !last {
            let t = r.gen_range(0..shapes.len());
            let s = &shapes[t];
            let full = model[t].0.is_empty() || chance(r, 0.7);
            let c = columns(r, s, full);
            let (m, q) = &mut model[t];
            let n = r.gen_range(1..25);
            let rows = changes(r, s, &c, m, n, 6, q, 0);
            if rows.is_empty() { continue }
            let batches: Vec<_> = split(r, &rows).iter().map(|p| batch(s, &c, p)).collect();
            rows_in += rows.len() as f64;
            bytes_in += batches.iter().map(|b| b.get_array_memory_size()).sum::<usize>() as f64;
            seq += r.gen_range(1..4u64);
            log += &format!("{} changes of table {t} in {} batches, transaction {seq}\n", rows.len(), batches.len());
            let target = LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store(&format!("t{t}")));
            if let Err(e) = w.enqueue_sync(target, Some(seq), origin.clone(), sync_schema(s, &c).unwrap(), batches) { ctx.violation("metrics-sync-refused", format!("{e}\n{log}")); return }
            if !compare(ctx, url, &log, "message", &delta, rows_in, bytes_in, began, &origin, &w, None).await { return }
        }
        let fail = !last && chance(r, 0.2);
        let before = spy.faults_hit.load(std::sync::atomic::Ordering::Relaxed);
        if fail { spy.set_fault(Some(Arc::new(|op: &str, _: &str| op.starts_with("put")))); }
        let a = if last { w.verif_flush_all().await } else { w.flush().await };
        spy.set_fault(None);
        let hit = spy.faults_hit.load(std::sync::atomic::Ordering::Relaxed) > before;
        log += &format!("flush{}: {:?}\n", if last { " of everything" } else { "" }, a.as_ref().map_err(|e| e.to_string().chars().take(80).collect::<String>()));
        if a.is_err() && !hit { ctx.violation("metrics-sync-flush", format!("{a:?}\n{log}")); return }
        if !compare(ctx, url, &log, if a.is_err() { "failed flush" } else if last { "last flush" } else { "flush" }, &delta, rows_in, bytes_in, began, &origin, &w, (a.is_ok() && !last).then_some(())).await { return }
        let Ok(m) = scrape(url).await else { continue };
        let f = delta(&m, "flush_rows_total");
        ctx.check(f >= flushed_rows, "metrics-sync-flush-total", || format!("{f} after {flushed_rows}\n{log}"));
        // what took how long, in the unit the name says, can't be more than all the time there was
        let real = clock.elapsed().as_secs_f64();
        for (n, unit) in [("flush_time_seconds", 1.0), ("squash_time_milliseconds", 1e3), ("planning_time_milliseconds", 1e3)] {
            let took = delta(&m, &format!("{n}_sum")) / unit;
            ctx.check(took >= 0.0 && took <= real, "metrics-sync-times", || format!("{n}: {took} s altogether within {real} s\n{log}"));
        }
        let (lag, flushes) = (delta(&m, "flush_lag_seconds_sum"), delta(&m, "flush_time_seconds_count"));
        ctx.check(lag >= 0.0 && lag <= flushes * (real + 1.0), "metrics-sync-lag", || format!("{lag} s in {flushes} flushes within {real} s\n{log}"));
        ctx.check(delta(&m, "flush_lag_seconds_count") == flushes && (flushes > 0.0) == (f > 0.0 || delta(&m, "flush_bytes_total") > 0.0), "metrics-sync-flushes", || format!("{flushes} flushes timed, {f} rows flushed\n{log}"));
        let (fb, held, sb) = (delta(&m, "flush_bytes_total"), m.get(&format!("{W}in_memory_bytes_current")).copied().unwrap_or(0.0), delta(&m, "squashed_bytes_total"));
        ctx.check(fb + held + sb >= bytes_in, "metrics-sync-lost-bytes", || format!("{bytes_in} bytes received, {sb} squashed away, {fb} flushed, {held} held\n{log}"));
        // nothing was squashed (which may add bytes): then bytes too are either flushed or held
        if delta(&m, "squash_time_milliseconds_count") == 0.0 {
            ctx.check(bytes_in == fb + held, "metrics-sync-flushed-bytes", || format!("{bytes_in} bytes received, {fb} flushed, {held} held\n{log}"));
            ctx.count("unsquashed_states", 1);
        }
        if f > flushed_rows {
            let at = m.get(&format!("{W}last_successful_flush_timestamp_seconds_current")).copied().unwrap_or(0.0);
            ctx.check(at >= began && at <= now() + 1.0, "metrics-sync-flush-time", || format!("{at} is not between {began} and now\n{log}"));
            ctx.count("flushes_seen", 1);
        }
        flushed_rows = f;
        if last {
            for g in ["in_memory_bytes_current", "in_memory_rows_current"] {
                ctx.check(m.get(&format!("{W}{g}")).is_none_or(|v| *v == 0.0), "metrics-sync-not-empty", || format!("{g} is {:?} though all is flushed\n{log}", m.get(&format!("{W}{g}"))));
            }
        }
    }
    if rows_in > flushed_rows { ctx.count("rows_squashed_away", (rows_in - flushed_rows) as u64); }
    ctx.sample(serde_json::json!({"sync": log}));
}

#[allow(clippy::too_many_arguments)]
async fn compare(ctx: &Ctx, url: &str, log: &str, what: &str, delta: &impl Fn(&BTreeMap<String, f64>, &str) -> f64, rows: f64, bytes: f64, began: f64, origin: &str, w: &SeafowlDataSyncWriter, oldest: Option<()>) -> bool {
    let m = match scrape(url).await { Ok(m) => m, Err(e) => { ctx.violation("metrics-unreadable", e); return false } };
    let d = |n: &str| delta(&m, n);
    let (rq, rb, mem, squashed, flushed) = (d("request_rows_total"), d("request_bytes_total"), m.get(&format!("{W}in_memory_rows_current")).copied().unwrap_or(0.0), d("squashed_rows_total"), d("flush_rows_total"));
    let mut good = ctx.check(rq == rows && rb == bytes, "metrics-sync-requests", || format!("after {what}: {rq} rows and {rb} bytes, really {rows} and {bytes}\n{log}"));
    good &= ctx.check(rows - squashed - flushed == mem && mem >= 0.0, "metrics-sync-rows", || format!("after {what}: {rows} rows received, {squashed} squashed, {flushed} flushed, yet {mem} in memory\n{log}"));
    let held = m.get(&format!("{W}in_memory_bytes_current")).copied().unwrap_or(0.0);
    good &= ctx.check(held >= 0.0 && (held > 0.0 || mem == 0.0), "metrics-sync-bytes", || format!("after {what}: {held} bytes in memory for {mem} rows\n{log}"));
    let (memory, durable) = w.stored_sequences(&origin.to_string());
    for (name, want) in [("sequence_memory_bytes", memory), ("sequence_durable_bytes", durable)] {
        let got = labelled(&m, &format!("{W}{name}")).find(|(l, _)| l.get("origin").is_some_and(|o| o == origin)).map(|x| x.1);
        good &= ctx.check(got == want.map(|s| s as f64), "metrics-sync-sequence", || format!("after {what}: {name} {got:?} instead of {want:?}\n{log}"));
    }
    if what == "message" || oldest.is_some() {
        let at = m.get(&format!("{W}in_memory_oldest_timestamp_seconds")).copied().unwrap_or(0.0);
        good &= ctx.check(if held == 0.0 { at == 0.0 } else { at >= began && at <= now() + 1.0 }, "metrics-sync-oldest", || format!("after {what}: {at} with {mem} rows in memory, began {began}\n{log}"));
    }
    ctx.eval(&(what, squashed > 0.0, mem > 0.0, flushed > 0.0), good);
    ctx.seen("states", &(rq as u64, mem as u64, squashed as u64, flushed as u64));
    good
}

const C: &str = "seafowl_object_store_";
/// the caching store counts what it is asked for and what it asks of the store behind it
async fn cache(ctx: &Ctx, r: &mut StdRng, url: &str) {
    use futures::{StreamExt, TryStreamExt};
    use object_store::{path::Path, ObjectStore, PutMultipartOpts, PutPayload};
    let requests = |m: &BTreeMap<String, f64>| labelled(m, &format!("{C}requests_total")).map(|(l, v)| ((l["operation"].clone(), l["status"].clone()), v)).collect::<BTreeMap<_, _>>();
    for case in 0..ctx.n(12, 400) {
        if ctx.used(0.6) || ctx.violated() { break }
        let dir = tempfile::tempdir().unwrap();
        let spy = crate::spy::Spy::new(Arc::new(object_store::memory::InMemory::new()));
        let (chunk, cap) = (pick(r, &[1u64, 7, 64, 1000]), pick(r, &[0u64, 500, 1 << 20]));
        let store = seafowl::object_store::cache::CachingObjectStore::new(spy.clone(), dir.path(), chunk, cap, std::time::Duration::from_secs(1000));
        let start = match scrape(url).await { Ok(m) => m, Err(e) => { ctx.violation("metrics-unreadable", e); return } };
        let was = |n: &str| start.get(&format!("{C}{n}")).copied().unwrap_or(0.0);
        let mut want = requests(&start);
        let (mut calls, mut asked, mut missed) = (0u64, 0usize, 0usize);
        let mut log = format!("chunks of {chunk}, capacity {cap}:");
        let names = ["a", "b/c", "b/d", "_delta_log/_last_checkpoint"];
        for _ in 0..r.gen_range(5..40) {
            let (p, q) = (Path::from(pick(r, &names)), Path::from(pick(r, &names)));
            let fail = chance(r, 0.15);
            if fail { spy.set_fault(Some(Arc::new(|_: &str, _: &str| true))); }
            spy.take();
            let what = r.gen_range(0..12);
            let body = PutPayload::from(vec![b'x'; r.gen_range(0..300)]);
            let (op, status) = match what {
                0 | 1 => ("put", Some(store.put(&p, body).await.is_ok())),
                2 => ("put_multipart", Some(store.put_multipart(&p).await.is_ok())),
                3 => ("put_multipart", Some(store.put_multipart_opts(&p, PutMultipartOpts::default()).await.is_ok())),
                4 => { let a = store.get(&p).await; ("get", Some(a.is_ok() || !fail && p.as_ref().ends_with("_last_checkpoint"))) }
                5 => ("head", Some(store.head(&p).await.is_ok())),
                6 => ("delete", Some(store.delete(&p).await.is_ok())),
                7 => { let _ = store.list(Some(&Path::from("b"))).try_collect::<Vec<_>>().await; ("list", None) }
                8 => ("list_with_delimiter", Some(store.list_with_delimiter(None).await.is_ok())),
                9 => ("copy", Some(store.copy(&p, &q).await.is_ok())),
                10 => ("copy_if_not_exists", Some(store.copy_if_not_exists(&p, &q).await.is_ok())),
                _ => ("get_range", None),
            };
            if what < 11 {
                *want.entry((op.into(), match status { Some(true) => "success", Some(false) => "error", None => "unknown" }.into())).or_default() += 1.0;
            } else {
                let from = r.gen_range(0..300);
                let range = from..from + r.gen_range(0..200);
                calls += 1;
                asked += range.len();
                let _ = store.get_range(&p, range).await;
                for c in spy.take().iter().filter(|c| c.op == "get_range") {
                    *want.entry(("get_range".into(), if c.ok { "success" } else { "error" }.into())).or_default() += 1.0;
                    missed += c.bytes;
                }
            }
            spy.set_fault(None);
            log += &format!(" {op}({p}){}", if fail { "!" } else { "" });
            let m = match scrape(url).await { Ok(m) => m, Err(e) => { ctx.violation("metrics-unreadable", e); return } };
            let got = requests(&m);
            let mut good = ctx.check(got == want, "metrics-store-requests", || {
                let diff: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).chain(got.iter().filter(|(k, v)| want.get(*k) != Some(*v))).collect();
                format!("{diff:?} in {log}")
            });
            for (n, real) in [("cache_get_range_requests_total", calls as f64), ("cache_get_range_requested_bytes_total", asked as f64), ("cache_get_range_read_bytes_total", missed as f64)] {
                let d = m.get(&format!("{C}{n}")).copied().unwrap_or(0.0) - was(n);
                good &= ctx.check(d == real, "metrics-cache-bytes", || format!("{n}: {d} instead of {real} in {log}"));
            }
            let c = m.get(&format!("{C}cache_capacity_bytes")).copied();
            good &= ctx.check(c == Some(cap as f64), "metrics-cache-capacity", || format!("{c:?} instead of {cap}"));
            ctx.eval(&("store", op, status, fail), good);
            if !good { return }
        }
        if case == 0 { ctx.sample(serde_json::json!({"store": log})); }
        let _ = store.list(None).count().await;
    }
}

async fn http(ctx: &Ctx, r: &mut StdRng, url: &str) {
    let s = Sf::memory("").await;
    for q in ["CREATE TABLE t (a INT)", "INSERT INTO t VALUES (1), (2)"] { s.sql(q).await.unwrap(); }
    let rts = routes(&s.ctx, HttpFrontend { write_access: AccessSettings::Any, ..Default::default() });
    let count = |m: &BTreeMap<String, f64>| labelled(m, "http_requests").map(|(l, v)| ((l["method"].clone(), l["route"].clone(), l["status"].clone()), v)).collect::<BTreeMap<_, _>>();
    let mut want = match scrape(url).await { Ok(m) => count(&m), Err(e) => { ctx.violation("metrics-unreadable", e); return } };
    for i in 0..ctx.n(200, 5000) {
        if ctx.used(0.8) { break }
        let sql = pick(r, &["SELECT a FROM t", "SELECT", "SELECT * FROM missing", "INSERT INTO t VALUES (3)", "SELECT a FROM t; SELECT 1", "SELECT 1/0"]);
        let body = serde_json::json!({ "query": sql }).to_string().into_bytes();
        let hash = { use sha2::Digest; hex::encode(sha2::Sha256::digest(if chance(r, 0.8) { sql } else { "other" })) };
        let enc = super::http::percent(sql);
        let db = pick(r, &["", "", "/default", "/nodb"]);
        let json = ("content-type", "application/json");
        let (ct, file) = multipart(&[("data", Some(pick(r, &["f.csv", "f.txt"])), b"a\n5\n")]);
        let (method, path, headers, body, route): (&str, String, Vec<(&str, &str)>, Vec<u8>, &str) = match r.gen_range(0..7) {
            0 => ("POST", format!("{db}/q"), vec![json], body, "/q"),
            1 => ("GET", format!("{db}/q/{hash}"), vec![("x-seafowl-query", &enc)], vec![], "/q"),
            2 => ("POST", format!("{db}/q"), vec![json, ("authorization", "Bearer wrong")], body, "/q"),
            3 => ("GET", "/healthz".into(), vec![], vec![], "/healthz"),
            4 => ("POST", format!("{db}/upload/public/up"), vec![("content-type", &ct)], file, "/upload"),
            5 => (pick(r, &["GET", "POST", "DELETE"]), pick(r, &["/nowhere", "/"]).to_string(), vec![], vec![], ""),
            _ => (pick(r, &["PUT", "DELETE"]), format!("{db}/q"), vec![json], body, "/q"),
        };
        let route = if route.is_empty() { path.clone() } else { route.to_string() };
        let a = match ask(&rts, method, &path, &headers, body).await { Ok(a) => a, Err(e) => { ctx.violation("metrics-http-crash", format!("{method} {path}: {e}")); return } };
        *want.entry((method.to_string(), route.clone(), a.status.to_string())).or_default() += 1.0;
        let got = match settled(url, |m| count(m) == want && m.get(RESERVED).copied().unwrap_or(0.0) == 0.0).await { Ok(m) => m, Err(e) => { ctx.violation("metrics-unreadable", e); return } };
        let good = ctx.check(count(&got) == want, "metrics-http", || format!("after {method} {path} {sql:?} answered {}: {:?} instead of {want:?}", a.status, count(&got)));
        ctx.eval(&("http", method, &route, a.status), good);
        // nothing is running, so no memory is held
        let held = got.get(RESERVED).copied().unwrap_or(0.0);
        ctx.check(held == 0.0, "metrics-memory-held", || format!("{held} bytes reserved after {method} {path} {sql:?}"));
        if !good { return }
        if i == 0 { ctx.sample(serde_json::json!({"http": format!("{want:?}")})); }
    }
}

async fn grpc(ctx: &Ctx, r: &mut StdRng, url: &str) {
    let srv = Server::start(Sf::memory("").await).await;
    for q in ["CREATE TABLE t (a INT)", "INSERT INTO t VALUES (1), (2)"] { srv.sf.sql(q).await.unwrap(); }
    let mut c = srv.client().await;
    let count = |m: &BTreeMap<String, f64>| labelled(m, "grpc_requests").map(|(l, v)| ((l["path"].clone(), l["status"].clone()), v)).collect::<BTreeMap<_, _>>();
    let mut want = match scrape(url).await { Ok(m) => count(&m), Err(e) => { ctx.violation("metrics-unreadable", e); return } };
    let p = |m: &str| format!("/arrow.flight.protocol.FlightService/{m}");
    for _ in 0..ctx.n(120, 3000) {
        if ctx.used(0.95) { break }
        let sql = pick(r, &["SELECT a FROM t", "SELECT * FROM missing", "SELECT", "INSERT INTO t VALUES (3)"]);
        let mut made: Vec<(String, i32)> = vec![];
        let what = match r.gen_range(0..5) {
            0 => {
                match super::flight::info(&mut c, sql, None).await {
                    Ok(i) => {
                        made.push((p("GetFlightInfo"), 0));
                        if chance(r, 0.7) { let a = redeem(&mut c, ticket(&i)).await; made.push((p("DoGet"), a.map(|_| 0).unwrap_or_else(|e| e.code() as i32))); }
                    }
                    Err(e) => made.push((p("GetFlightInfo"), e.code() as i32)),
                }
                "query"
            }
            1 => { let a = redeem(&mut c, Ticket { ticket: pick(r, &["no such ticket", "", "\u{1}x"]).to_string().into() }).await; made.push((p("DoGet"), a.map(|_| 0).unwrap_or_else(|e| e.code() as i32))); "ticket" }
            2 => { let a = c.list_flights(arrow_flight::Criteria::default()).await; made.push((p("ListFlights"), a.map(|_| 0).unwrap_or_else(|e| e.code() as i32))); "unsupported" }
            3 => { let a = c.get_schema(arrow_flight::FlightDescriptor::default()).await; made.push((p("GetSchema"), a.map(|_| 0).unwrap_or_else(|e| e.code() as i32))); "unsupported" }
            _ => {
                let a = query(&mut c, "SELECT 1 AS x", None).await;
                if let Err(e) = a { ctx.violation("metrics-grpc-query", e.to_string()); return }
                made.extend([(p("GetFlightInfo"), 0), (p("DoGet"), 0)]);
                "query"
            }
        };
        for (path, code) in &made { *want.entry((path.clone(), code.to_string())).or_default() += 1.0; }
        let got = match settled(url, |m| count(m) == want).await { Ok(m) => count(&m), Err(e) => { ctx.violation("metrics-unreadable", e); return } };
        let good = ctx.check(got == want, "metrics-grpc", || format!("after {what} {sql:?}, {made:?}: {got:?} instead of {want:?}"));
        for m in &made { ctx.eval(&("grpc", m), good); }
        if !good { return }
    }
}
