//! C35: the metered memory pool.
use crate::memory_pool::MemoryPoolMetrics;
use datafusion::execution::memory_pool::{FairSpillPool, GreedyMemoryPool, MemoryConsumer, MemoryPool, MemoryReservation, UnboundedMemoryPool};
use metrics_exporter_prometheus::{PrometheusBuilder, PrometheusHandle, PrometheusRecorder};
use sfv::{chance, pick, rand::rngs::StdRng, rand::Rng, Ctx};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

const ALLOC: &str = "seafowl_datafusion_memory_pool_allocated_bytes_total";
const FREED: &str = "seafowl_datafusion_memory_pool_freed_bytes_total";
const RESERVED: &str = "seafowl_datafusion_memory_pool_reserved_bytes_current";

/// the wrapped pool, taking its time around each call
#[derive(Debug)]
struct Slow { inner: Arc<dyn MemoryPool>, n: AtomicU64, level: u64 }
impl Slow {
    fn dawdle(&self) {
        if self.level == 0 { return }
        match sfv::hash_of(&self.n.fetch_add(1, Ordering::Relaxed)) % self.level {
            0 => std::thread::sleep(Duration::from_micros(50)),
            1 | 2 => std::thread::yield_now(),
            _ => {}
        }
    }
}
impl MemoryPool for Slow {
    fn register(&self, c: &MemoryConsumer) { self.inner.register(c) }
    fn unregister(&self, c: &MemoryConsumer) { self.inner.unregister(c) }
    fn grow(&self, r: &MemoryReservation, n: usize) { self.dawdle(); self.inner.grow(r, n); self.dawdle() }
    fn shrink(&self, r: &MemoryReservation, n: usize) { self.dawdle(); self.inner.shrink(r, n); self.dawdle() }
    fn try_grow(&self, r: &MemoryReservation, n: usize) -> datafusion_common::Result<()> { self.dawdle(); let x = self.inner.try_grow(r, n); self.dawdle(); x }
    fn reserved(&self) -> usize { let x = self.inner.reserved(); self.dawdle(); x }
}

#[derive(Default, Clone, Debug, PartialEq)]
struct Totals { granted: BTreeMap<String, u64>, refused: BTreeMap<String, u64>, freed: BTreeMap<String, u64> }

/// Prometheus text -> (name, labels) -> value
fn scrape(h: &PrometheusHandle) -> BTreeMap<String, f64> {
    h.render().lines().filter(|l| !l.starts_with('#')).filter_map(|l| { let (k, v) = l.rsplit_once(' ')?; Some((k.to_string(), v.parse().ok()?)) }).collect()
}
fn totals(h: &PrometheusHandle) -> (Totals, Option<f64>) {
    let mut t = Totals::default();
    let m = scrape(h);
    let label = |k: &str, l: &str| k.split_once(&format!("{l}=\"")).and_then(|(_, r)| r.split_once('"')).map(|x| x.0.to_string());
    for (k, v) in &m {
        let Some(c) = label(k, "consumer") else { continue };
        if *v == 0.0 { continue }
        let map = if k.starts_with(FREED) { &mut t.freed } else if k.starts_with(ALLOC) {
            match label(k, "result").as_deref() { Some("success") => &mut t.granted, _ => &mut t.refused }
        } else { continue };
        *map.entry(c).or_default() += *v as u64;
    }
    (t, m.get(RESERVED).copied())
}

fn base(r: &mut StdRng, limit: usize) -> (Arc<dyn MemoryPool>, Arc<dyn MemoryPool>, &'static str) {
    match r.gen_range(0..3) {
        0 => (Arc::new(GreedyMemoryPool::new(limit)), Arc::new(GreedyMemoryPool::new(limit)), "greedy"),
        1 => (Arc::new(FairSpillPool::new(limit)), Arc::new(FairSpillPool::new(limit)), "fair"),
        _ => (Arc::new(UnboundedMemoryPool::default()), Arc::new(UnboundedMemoryPool::default()), "unbounded"),
    }
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("one evaluation = the pool's answer and all its metrics compared after one call (sequential), or after all consumers of a concurrent burst came to rest; distinct by (pool, operation, sizes) / (pool, burst)");
    for i in 0..ctx.n(60, 2000) {
        if ctx.used(0.4) { break }
        sequential(ctx, i as u64);
    }
    for i in 0..ctx.n(150, 5000) {
        if ctx.used(0.9) { break }
        concurrent(ctx, i as u64);
    }
    let n = ctx.get_count("bursts");
    if n < 20 { ctx.inconclusive(format!("only {n} concurrent bursts")); }
}

const CONSUMERS: &[&str] = &["Sort[0]", "Sort[1]", "GroupedHashAggregateStream[2]", "plain", "RepartitionExec[Merge 3]", "x[", "Hash Join", "[odd]", "é[1]"];
fn consumer_label(n: &str) -> String { n.split('[').next().unwrap().to_string() }

fn sequential(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("seq", i);
    let limit = r.gen_range(10..5000);
    let (a, b, kind) = base(&mut r, limit);
    let rec = PrometheusBuilder::new().build_recorder();
    let h = rec.handle();
    metrics::with_local_recorder(&rec, || {
        let pool: Arc<dyn MemoryPool> = Arc::new(MemoryPoolMetrics::new(a.clone()));
        let mut want = Totals::default();
        let mut live: Vec<(String, MemoryReservation, MemoryReservation)> = vec![];
        let mut trace = vec![];
        for _ in 0..r.gen_range(5..60) {
            let k = r.gen_range(0..10);
            if live.is_empty() || k == 0 {
                let n = *pick(&mut r, CONSUMERS);
                let spill = chance(&mut r, 0.5);
                let mk = |p: &Arc<dyn MemoryPool>| MemoryConsumer::new(n).with_can_spill(spill).register(p);
                live.push((consumer_label(n), mk(&pool), mk(&b)));
                trace.push(format!("register {n} spill={spill}"));
            } else {
                let j = r.gen_range(0..live.len());
                let n = *pick(&mut r, &[0usize, 1, 7, 100, 900, 5000]);
                let (c, x, y) = &mut live[j];
                match k {
                    1 | 2 if kind != "fair" || true => {
                        x.grow(n); y.grow(n);
                        *want.granted.entry(c.clone()).or_default() += n as u64;
                        trace.push(format!("grow {c} {n}"));
                    }
                    3..=6 => {
                        let (p, q) = (x.try_grow(n), y.try_grow(n));
                        trace.push(format!("try_grow {c} {n} -> {}", p.is_ok()));
                        ctx.check(p.is_ok() == q.is_ok(), "pool-different-decision", || format!("{kind} pool of {limit}: wrapper {p:?}, pool itself {q:?}; {trace:?}"));
                        *(if p.is_ok() { &mut want.granted } else { &mut want.refused }).entry(c.clone()).or_default() += n as u64;
                        ctx.count(if p.is_ok() { "granted" } else { "refused" }, 1);
                    }
                    7 | 8 => {
                        let n = r.gen_range(0..=x.size());
                        x.shrink(n); y.shrink(n);
                        *want.freed.entry(c.clone()).or_default() += n as u64;
                        trace.push(format!("shrink {c} {n}"));
                    }
                    _ => {
                        let (c, x, y) = live.swap_remove(j);
                        *want.freed.entry(c.clone()).or_default() += x.size() as u64;
                        trace.push(format!("drop {c} {}", x.size()));
                        drop((x, y));
                    }
                }
            }
            verdict(ctx, &h, &want, pool.reserved(), b.reserved(), kind, &trace);
            ctx.eval(&(kind, limit, trace.last().cloned(), trace.len()), true);
        }
        for (c, x, _y) in live.drain(..) {
            *want.freed.entry(c).or_default() += x.size() as u64;
        }
        verdict(ctx, &h, &want, pool.reserved(), 0, kind, &trace);
        ctx.sample(sfv::serde_json::json!({"pool": kind, "limit": limit, "operations": trace}));
    });
}

fn verdict(ctx: &Ctx, h: &PrometheusHandle, want: &Totals, reserved: usize, reference: usize, kind: &str, trace: &[String]) {
    let (mut got, gauge) = totals(h);
    let mut want = want.clone();
    for m in [&mut want.granted, &mut want.refused, &mut want.freed, &mut got.granted, &mut got.refused, &mut got.freed] { m.retain(|_, v| *v != 0); }
    let tail = || trace.iter().rev().take(6).cloned().collect::<Vec<_>>();
    ctx.check(reserved == reference, "pool-reserved-differs", || format!("{kind}: {reserved} reserved, {reference} in the pool itself; last: {:?}", tail()));
    ctx.check(gauge == Some(reserved as f64), "pool-reserved-metric", || format!("{kind}: metric {gauge:?}, {reserved} reserved; last: {:?}", tail()));
    ctx.check(got.granted == want.granted, "pool-granted-metric", || format!("{kind}: {:?}, {:?} expected; last: {:?}", got.granted, want.granted, tail()));
    ctx.check(got.refused == want.refused, "pool-refused-metric", || format!("{kind}: {:?}, {:?} expected; last: {:?}", got.refused, want.refused, tail()));
    ctx.check(got.freed == want.freed, "pool-freed-metric", || format!("{kind}: {:?}, {:?} expected; last: {:?}", got.freed, want.freed, tail()));
}

fn concurrent(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng_n("conc", i);
    let limit = r.gen_range(100..20000);
    let (a, _, kind) = base(&mut r, limit);
    let level = *pick(&mut r, &[0u64, 3, 10, 40]);
    let rec = Arc::new(PrometheusBuilder::new().build_recorder());
    let h = rec.handle();
    let pool: Arc<dyn MemoryPool> = metrics::with_local_recorder(rec.as_ref(), || Arc::new(MemoryPoolMetrics::new(Arc::new(Slow { inner: a.clone(), n: AtomicU64::new(i * 7), level }))) as _);
    let threads = r.gen_range(2..7u64);
    let rounds = 3;
    let barrier = Arc::new(Barrier::new(threads as usize + 1));
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for t in 0..threads {
        let (pool, rec, barrier) = (pool.clone(), rec.clone(), barrier.clone());
        let mut r = ctx.rng_n("conc-thread", i * 100 + t);
        hs.push(std::thread::spawn(move || {
            metrics::with_local_recorder(rec.as_ref(), || {
                let mut want = Totals::default();
                let mut live: Vec<(String, MemoryReservation)> = vec![];
                let mut decisions = 0;
                for _ in 0..rounds {
                    barrier.wait();
                    for _ in 0..25 {
                        if live.is_empty() || chance(&mut r, 0.1) {
                            let n = *pick(&mut r, CONSUMERS);
                            live.push((consumer_label(n), MemoryConsumer::new(n).with_can_spill(chance(&mut r, 0.5)).register(&pool)));
                        }
                        let j = r.gen_range(0..live.len());
                        let (c, x) = &mut live[j];
                        match r.gen_range(0..6) {
                            0 => { let n = r.gen_range(0..300); x.grow(n); *want.granted.entry(c.clone()).or_default() += n as u64; }
                            1 | 2 => { let n = r.gen_range(0..3000); let ok = x.try_grow(n).is_ok(); decisions += 1; *(if ok { &mut want.granted } else { &mut want.refused }).entry(c.clone()).or_default() += n as u64; }
                            3 => { let n = r.gen_range(0..=x.size()); x.shrink(n); *want.freed.entry(c.clone()).or_default() += n as u64; }
                            4 => { let n = x.free(); *want.freed.entry(c.clone()).or_default() += n as u64; }
                            _ => { let (c, x) = live.swap_remove(j); *want.freed.entry(c).or_default() += x.size() as u64; }
                        }
                    }
                    barrier.wait(); // at rest
                    barrier.wait(); // judged
                }
                barrier.wait();
                for (c, x) in live.drain(..) { *want.freed.entry(c).or_default() += x.size() as u64; }
                barrier.wait();
                (want, decisions)
            })
        }));
    }
    // a reader of the metrics while the consumers are at work: totals only grow
    let watcher = { let (h, stop, ctx) = (h.clone(), stop.clone(), ctx.clone()); std::thread::spawn(move || {
        let mut last = Totals::default();
        while !stop.load(Ordering::Relaxed) {
            let (t, _) = totals(&h);
            for (n, old, new) in [("granted", &last.granted, &t.granted), ("refused", &last.refused, &t.refused), ("freed", &last.freed, &t.freed)] {
                for (c, v) in old { ctx.check(new.get(c).copied().unwrap_or(0) >= *v, "pool-total-went-back", || format!("{n} of {c}: {v} then {:?}", new.get(c))); }
            }
            last = t;
            ctx.count("metric_reads_during_bursts", 1);
            std::thread::sleep(Duration::from_micros(200));
        }
    }) };
    for round in 0..rounds {
        barrier.wait();
        barrier.wait();
        let (t, gauge) = totals(&h);
        let reserved = a.reserved();
        ctx.check(gauge == Some(reserved as f64), "pool-reserved-metric-at-rest", || format!("seed {} burst {i} round {round}: {threads} consumers' threads on a {kind} pool: metric {gauge:?}, {reserved} reserved", ctx.seed));
        let (g, f) = (t.granted.values().sum::<u64>(), t.freed.values().sum::<u64>());
        ctx.check(g >= f && g - f == reserved as u64, "pool-not-conserved", || format!("granted {g} - freed {f}, {reserved} reserved"));
        ctx.check(pool.reserved() == reserved, "pool-reserved-differs", || format!("{} {reserved}", pool.reserved()));
        ctx.eval(&(kind, limit, threads, round, i), true);
        barrier.wait();
    }
    barrier.wait();
    barrier.wait();
    let mut want = Totals::default();
    for h in hs {
        let (w, d) = h.join().unwrap();
        ctx.count("concurrent_decisions", d);
        for (a, b) in [(&mut want.granted, w.granted), (&mut want.refused, w.refused), (&mut want.freed, w.freed)] { for (c, v) in b { *a.entry(c).or_default() += v; } }
    }
    stop.store(true, Ordering::Relaxed);
    let _ = watcher.join();
    verdict(ctx, &h, &want, pool.reserved(), 0, kind, &[format!("burst {i}, all consumers gone")]);
    ctx.count("bursts", 1);
}
