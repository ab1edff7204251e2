//! C52: several clients at once, judged by their recorded histories
use super::http::{post, routes, Routes};
use crate::sf::{self, Sf};
use seafowl::context::SeafowlContext;
use sfv::rand::rngs::StdRng;
use sfv::rand::{Rng, SeedableRng};
use sfv::{chance, pick, Ctx};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

type Rows = BTreeMap<i64, i64>;
type State = BTreeMap<String, Rows>;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Insert(String, Vec<(i64, i64)>),
    Add(String, i64, i64, i64),
    Delete(String, i64, i64),
    Select(String, i64),
    Sum(String),
    Create(String, Vec<(i64, i64)>),
    CreateIfMissing(String, Vec<(i64, i64)>),
    Drop(String),
    Rename(String, String),
}
use Op::*;
impl Op {
    fn sql(&self) -> String {
        let vals = |v: &Vec<(i64, i64)>| v.iter().map(|(a, b)| format!("({a}, {b})")).collect::<Vec<_>>().join(", ");
        match self {
            Insert(t, v) => format!("INSERT INTO {t} VALUES {}", vals(v)),
            Add(t, a, b, d) => format!("UPDATE {t} SET v = v + {d} WHERE k >= {a} AND k < {b}"),
            Delete(t, a, b) => format!("DELETE FROM {t} WHERE k >= {a} AND k < {b}"),
            Select(t, lo) => format!("SELECT k, v FROM {t} WHERE k >= {lo}"),
            Sum(t) => format!("SELECT count(*), coalesce(sum(v), 0) FROM {t}"),
            Create(t, v) => format!("CREATE TABLE {t} AS SELECT column1 AS k, column2 AS v FROM (VALUES {})", vals(v)),
            CreateIfMissing(t, v) => format!("CREATE TABLE IF NOT EXISTS {t} AS SELECT column1 AS k, column2 AS v FROM (VALUES {})", vals(v)),
            Drop(t) => format!("DROP TABLE {t}"),
            Rename(a, b) => format!("ALTER TABLE {a} RENAME TO {b}"),
        }
    }
    fn kind(&self) -> &'static str {
        match self { Insert(..) => "insert", Add(..) => "update", Delete(..) => "delete", Select(..) => "select", Sum(..) => "sum", Create(..) => "create", CreateIfMissing(..) => "create-if-missing", Drop(..) => "drop", Rename(..) => "rename" }
    }
    fn tables(&self) -> Vec<&str> {
        match self { Insert(t, _) | Add(t, ..) | Delete(t, ..) | Select(t, _) | Sum(t) | Create(t, _) | CreateIfMissing(t, _) | Drop(t) => vec![t], Rename(a, b) => vec![a, b] }
    }
    fn reads(&self) -> bool { matches!(self, Select(..) | Sum(_)) }
    fn shapes(&self) -> bool { matches!(self, Create(..) | CreateIfMissing(..) | Drop(_) | Rename(..)) }
    /// what it does to a state and says, or None when it can't be done there
    fn apply(&self, s: &State) -> Option<(State, Option<Vec<(i64, i64)>>)> {
        let mut n = s.clone();
        let mut out = None;
        match self {
            Insert(t, v) => n.get_mut(t)?.extend(v.iter().cloned()),
            Add(t, a, b, d) => { for (_, v) in n.get_mut(t)?.range_mut(*a..(*b).max(*a)) { *v += d } }
            Delete(t, a, b) => n.get_mut(t)?.retain(|k, _| k < a || k >= b),
            Select(t, lo) => out = Some(s.get(t)?.range(lo..).map(|(a, b)| (*a, *b)).collect()),
            Sum(t) => { let r = s.get(t)?; out = Some(vec![(r.len() as i64, r.values().sum())]) }
            Create(t, v) => { if s.contains_key(t) { return None } n.insert(t.clone(), v.iter().cloned().collect()); }
            CreateIfMissing(t, v) => { if !s.contains_key(t) { n.insert(t.clone(), v.iter().cloned().collect()); } }
            Drop(t) => { n.remove(t)?; }
            Rename(a, b) => { if s.contains_key(b) { return None } let r = n.remove(a)?; n.insert(b.clone(), r); }
        }
        Some((n, out))
    }
}

#[derive(Clone, Debug)]
struct Done { client: usize, op: Op, from: u64, to: u64, result: Result<Option<Vec<(i64, i64)>>, String> }

/// one of the ways of reaching the same tables
#[derive(Clone)]
enum Way { Direct(Arc<SeafowlContext>), Http(Routes), Scoped(Arc<SeafowlContext>) }
impl Way {
    async fn run(&self, op: &Op) -> Result<Option<Vec<(i64, i64)>>, String> {
        let text = op.sql();
        let cells: Vec<Vec<String>> = match self {
            Way::Direct(c) => sf::rows(&sf::sql(c, &text).await.map_err(|e| e.to_string())?),
            Way::Scoped(c) => sf::rows(&sf::sql(&c.scope_to_schema("public".into()), &text).await.map_err(|e| e.to_string())?),
            Way::Http(r) => {
                let a = post(r, "/q", &text, &[]).await?;
                if a.status != 200 { return Err(a.text()) }
                let names: &[&str] = match op { Select(..) => &["k", "v"], Sum(_) => &[], _ => &[] };
                let mut out = vec![];
                for l in a.text().lines() {
                    let j: serde_json::Map<String, serde_json::Value> = serde_json::from_str(l).map_err(|e| format!("answer {l:?}: {e}"))?;
                    out.push(if names.is_empty() {
                        let count = j.iter().find(|(k, _)| k.starts_with("count")).map(|x| x.1.to_string()).unwrap_or_default();
                        let sum = j.iter().find(|(k, _)| !k.starts_with("count")).map(|x| x.1.to_string()).unwrap_or_default();
                        vec![count, sum]
                    } else { names.iter().map(|n| j.get(*n).map(|v| v.to_string()).unwrap_or_default()).collect() });
                }
                out
            }
        };
        if !op.reads() { return Ok(None) }
        let mut v: Vec<(i64, i64)> = cells.iter().map(|r| Ok((r[0].parse().map_err(|_| format!("cell {}", r[0]))?, r[1].parse().map_err(|_| format!("cell {}", r[1]))?))).collect::<Result<_, String>>()?;
        v.sort();
        Ok(Some(v))
    }
}

/// is there an order of the statements, respecting who finished before whom began, which explains everything?
struct Search<'a> { h: &'a [Done], before: Vec<u64>, seen: HashSet<(u64, u64)>, steps: u64, deepest: (u32, u64, State) }
impl<'a> Search<'a> {
    fn new(h: &'a [Done]) -> Self {
        let before = h.iter().map(|x| h.iter().enumerate().filter(|(_, y)| y.to < x.from).fold(0, |m, (i, _)| m | 1 << i)).collect();
        Search { h, before, seen: Default::default(), steps: 0, deepest: (0, 0, Default::default()) }
    }
    /// may this statement have failed for being in the way of another one?
    fn excused(&self, i: usize) -> bool {
        let x = &self.h[i];
        self.h.iter().enumerate().any(|(j, y)| j != i && y.from < x.to && x.from < y.to && y.op.tables().iter().any(|t| x.op.tables().contains(t)) && if x.op.reads() { y.op.shapes() } else { !y.op.reads() })
    }
    fn go(&mut self, done: u64, s: &State) -> Option<bool> {
        if done.count_ones() as usize == self.h.len() { return Some(true) }
        self.steps += 1;
        if self.steps > 400_000 { return None }
        if done.count_ones() > self.deepest.0 { self.deepest = (done.count_ones(), done, s.clone()) }
        if !self.seen.insert((done, sfv::hash_of(s))) { return Some(false) }
        for i in 0..self.h.len() {
            if done & (1 << i) != 0 || self.before[i] & !done != 0 { continue }
            let x = &self.h[i];
            let next = match (&x.result, x.op.apply(s)) {
                (Ok(out), Some((n, want))) if *out == want => n,
                (Err(_), None) => s.clone(),
                (Err(_), Some(_)) if self.excused(i) => s.clone(),
                _ => continue,
            };
            match self.go(done | 1 << i, &next) { Some(false) => {} other => return other }
        }
        Some(false)
    }
}

struct World { ways: Vec<Way>, _keep: Vec<Sf>, spy: Option<Arc<crate::spy::Spy>>, kind: &'static str }

async fn world(r: &mut StdRng, round: usize) -> World {
    let any = seafowl::config::schema::AccessSettings::Any;
    let cfg = || seafowl::config::schema::HttpFrontend { read_access: any.clone(), write_access: any.clone(), ..Default::default() };
    match round % 3 {
        0 => {
            let (sf, spy) = Sf::spied_catalogue("").await;
            spy.delay_us.store(*pick(r, &[0, 500, 3000, 8000]), Ordering::Relaxed);
            World { ways: vec![Way::Scoped(sf.ctx.clone()), Way::Http(routes(&sf.ctx, cfg())), Way::Http(routes(&sf.ctx, cfg())), Way::Scoped(sf.ctx.clone())], _keep: vec![sf], spy: Some(spy), kind: "one server, slow store" }
        }
        1 => {
            let sf = Sf::disk("[misc]\nmax_partition_size = 3").await;
            World { ways: vec![Way::Http(routes(&sf.ctx, cfg())), Way::Http(routes(&sf.ctx, cfg())), Way::Http(routes(&sf.ctx, cfg())), Way::Scoped(sf.ctx.clone())], _keep: vec![sf], spy: None, kind: "one server, on disk" }
        }
        _ => {
            let a = Sf::disk("").await;
            let b = Sf::open(&a.dir, "").await;
            World { ways: vec![Way::Http(routes(&a.ctx, cfg())), Way::Http(routes(&b.ctx, cfg())), Way::Scoped(a.ctx.clone()), Way::Scoped(b.ctx.clone())], _keep: vec![b, a], spy: None, kind: "two servers" }
        }
    }
}

async fn histories(ctx: &Ctx, r: &mut StdRng, round: usize) {
    let w = world(r, round).await;
    let names = ["t0", "t1"];
    let mut state: State = Default::default();
    let mut next_key = 0i64;
    for t in names {
        let rows: Vec<(i64, i64)> = (0..r.gen_range(1..6)).map(|_| { next_key += 1; (next_key, 0) }).collect();
        let op = Create(t.into(), rows);
        if let Err(e) = w.ways[0].run(&op).await { ctx.violation("setup", format!("{}: {e}", op.sql())); return }
        state = op.apply(&state).unwrap().0;
    }
    for episode in 0..ctx.n(7, 12) {
        if ctx.out_of_time() { break }
        let shaping = chance(r, 0.5);
        // a rename isn't run together with drops and other renames
        let renaming = chance(r, 0.3);
        let clients = r.gen_range(2..5);
        let base = next_key + 1;
        let per = if shaping { r.gen_range(2..4) } else { r.gen_range(2..5) };
        let mut plans: Vec<Vec<Op>> = vec![];
        for client in 0..clients {
            let mut p = vec![];
            for _ in 0..per {
                let t = if shaping { if chance(r, 0.7) { "t0" } else { *pick(r, &["t1", "t2"]) } } else if chance(r, 0.8) { "t0" } else { "t1" }.to_string();
                let range = |r: &mut StdRng| { let a = r.gen_range(0..base); (a, (a + r.gen_range(1..6)).min(base)) };
                let fresh = |r: &mut StdRng, k: &mut i64| (0..r.gen_range(1..4)).map(|_| { *k += 1; (*k, r.gen_range(0..5)) }).collect::<Vec<_>>();
                p.push(match r.gen_range(0..if shaping { 14 } else { 9 }) {
                    0 | 1 => Insert(t, fresh(r, &mut next_key)),
                    2 => { let (a, b) = range(r); Add(t, a, b, 1 << r.gen_range(0..8)) }
                    3 => if chance(r, 0.5) { Add(t, 0, base, 1000) } else { let (a, b) = range(r); Delete(t, a, b) },
                    4 => Sum(t),
                    5 | 6 | 7 => Select(t, 0),
                    8 => Select(t, r.gen_range(0..base)),
                    9 => Create(t, vec![{ next_key += 1; (next_key, 7) }]),
                    10 => CreateIfMissing(t, vec![{ next_key += 1; (next_key, 9) }]),
                    _ if !renaming => Drop(t),
                    _ => { let o = *pick(r, &["t0", "t1", "t2"]); if o == t || client > 0 { Select(t, 0) } else { Rename(t, o.into()) } }
                });
            }
            plans.push(p);
        }
        let clock = Arc::new(AtomicU64::new(1));
        let seeds: Vec<u64> = plans.iter().map(|_| r.gen()).collect();
        let tasks: Vec<_> = plans.into_iter().enumerate().map(|(c, plan)| {
            let (way, clock, mut r) = (w.ways[c % w.ways.len()].clone(), clock.clone(), StdRng::seed_from_u64(seeds[c]));
            tokio::spawn(async move {
                let mut out = vec![];
                for op in plan {
                    if chance(&mut r, 0.3) { tokio::time::sleep(Duration::from_micros(r.gen_range(0..4000))).await }
                    let from = clock.fetch_add(1, Ordering::SeqCst);
                    let result = way.run(&op).await;
                    let to = clock.fetch_add(1, Ordering::SeqCst);
                    out.push(Done { client: c, op, from, to, result });
                }
                out
            })
        }).collect();
        let mut h = vec![];
        for t in tasks {
            match t.await { Ok(x) => h.extend(x), Err(e) => { ctx.violation("history/panic", format!("{e} {}", sfv::last_panic_any())); return } }
        }
        // and what is there when all is quiet, from every server
        for (i, way) in w.ways.iter().enumerate().take(2) {
            for t in ["t0", "t1", "t2"] {
                let op = Select(t.into(), 0);
                let from = clock.fetch_add(1, Ordering::SeqCst);
                let result = way.run(&op).await;
                let to = clock.fetch_add(1, Ordering::SeqCst);
                h.push(Done { client: 100 + i, op, from, to, result });
            }
        }
        for x in &h {
            ctx.count(if x.result.is_ok() { "statements_succeeded" } else { "statements_failed" }, 1);
            if let Err(e) = &x.result { ctx.seen("errors", &e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>()); }
        }
        let overlaps = h.iter().enumerate().map(|(i, x)| h[..i].iter().filter(|y| y.from < x.to && x.from < y.to).count()).sum::<usize>();
        ctx.count("overlapping_pairs", overlaps as u64);
        let mut order: Vec<(u64, String)> = h.iter().flat_map(|x| [(x.from, format!("{}+{}", x.client, x.op.kind())), (x.to, format!("{}-{}", x.client, x.result.is_ok()))]).collect();
        order.sort();
        ctx.seen("interleavings", &order.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" "));
        ctx.eval(&format!("history/{}/{}/{clients}/{:?}", w.kind, shaping, { let mut k: Vec<_> = h.iter().map(|x| x.op.kind()).collect(); k.sort(); k.dedup(); k }), overlaps > 0);
        let mut s = Search::new(&h);
        let verdict = s.go(0, &state);
        ctx.count("orders_tried", s.steps);
        match verdict {
            None => { ctx.inconclusive("a history took more than 400000 steps to explain"); break }
            Some(true) => {}
            Some(false) => {
                let mut t = h.clone();
                t.sort_by_key(|x| x.from);
                let stuck: Vec<String> = h.iter().enumerate().filter(|(i, _)| s.deepest.1 & (1 << i) == 0).map(|(_, x)| format!("{} [{}]", x.op.sql(), x.client)).collect();
                let blame = h.iter().enumerate().filter(|(i, x)| s.deepest.1 & (1 << i) == 0 && s.before[*i] & !s.deepest.1 == 0 && (x.op.apply(&s.deepest.2).is_none() || x.op.reads())).map(|(_, x)| format!("{}{}", x.op.kind(), if x.result.is_err() { "-refused" } else { "" })).next().unwrap_or_default();
                ctx.violation(&format!("history/{}/{blame}", if h.iter().any(|x| x.op.shapes()) { "ddl" } else { "dml" }), format!(
                    "no order of these statements explains their results ({})\nbefore: {state:?}\n{}\nlongest explained part leaves out: {stuck:?}\nwith {:?}",
                    w.kind, t.iter().map(|x| format!("[{}..{}] client {}: {} -> {:?}", x.from, x.to, x.client, x.op.sql(), x.result)).collect::<Vec<_>>().join("\n"), s.deepest.2));
                return;
            }
        }
        // go on from what is there
        state.clear();
        for x in h.iter().filter(|x| x.client == 100) {
            if let (Select(t, _), Ok(Some(v))) = (&x.op, &x.result) { state.insert(t.clone(), v.iter().cloned().collect()); }
        }
        if !state.contains_key("t0") {
            let op = Create("t0".into(), vec![{ next_key += 1; (next_key, 0) }]);
            match w.ways[0].run(&op).await { Ok(_) => state = op.apply(&state).unwrap().0, Err(e) => { ctx.violation("setup", format!("{}: {e}, although there's no such table", op.sql())); return } }
        }
        let _ = episode;
    }
    if let Some(spy) = w.spy { spy.take(); }
}

/// everybody counts up, copies and looks, all at once: nothing is lost and nothing is half-seen
async fn stress(ctx: &Ctx, r: &mut StdRng, round: usize) {
    let w = world(r, round).await;
    let run = |way: Way, s: String| async move { match way { Way::Http(r) => { let a = post(&r, "/q", &s, &[]).await?; if a.status == 200 { Ok(vec![vec![a.text()]]) } else { Err(a.text()) } } Way::Direct(c) => sf::sql(&c, &s).await.map(|b| sf::rows(&b)).map_err(|e| e.to_string()), Way::Scoped(c) => sf::sql(&c.scope_to_schema("public".into()), &s).await.map(|b| sf::rows(&b)).map_err(|e| e.to_string()) } };
    for s in ["CREATE TABLE counter AS SELECT column1 AS k, 0 AS v FROM (VALUES (1), (2), (3))", "INSERT INTO counter VALUES (4, 0), (5, 0)", "CREATE TABLE copies (c BIGINT, k BIGINT, v BIGINT)", "CREATE TABLE log (c BIGINT, n BIGINT)"] {
        if let Err(e) = run(w.ways[0].clone(), s.into()).await { ctx.violation("setup", format!("{s}: {e}")); return }
    }
    let ups = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let n = ctx.n(8, 20);
    let mut tasks = vec![];
    for c in 0..6usize {
        let (w, ups, mut r) = (w.ways[c % w.ways.len()].clone(), ups.clone(), StdRng::seed_from_u64(r.gen()));
        let direct = match &w { Way::Http(_) => false, _ => true };
        tasks.push(tokio::spawn(async move {
            let mut logged = vec![];
            let mut copied = vec![];
            let mut bad: Vec<(String, String)> = vec![];
            for i in 0..n {
                match r.gen_range(0..5) {
                    0 | 1 => if run(w.clone(), "UPDATE counter SET v = v + 1".into()).await.is_ok() { ups.fetch_add(1, Ordering::SeqCst); },
                    2 => match run(w.clone(), format!("INSERT INTO log VALUES ({c}, {i})")).await { Ok(_) => logged.push(i), Err(e) => bad.push(("stress/append-failed".into(), format!("INSERT VALUES into a table that's only ever appended to: {e}"))) },
                    3 => {
                        let id = c * 1000 + i;
                        match run(w.clone(), format!("INSERT INTO copies SELECT {id}, k, v FROM counter")).await { Ok(_) => copied.push(id), Err(e) => bad.push(("stress/append-failed".into(), format!("INSERT SELECT into a table that's only ever appended to: {e}"))) }
                    }
                    _ => if direct {
                        match run(w.clone(), "SELECT k, v FROM counter".into()).await {
                            Err(e) => bad.push(("stress/read-failed".into(), e)),
                            Ok(rows) => {
                                let vs: HashSet<&String> = rows.iter().map(|r| &r[1]).collect();
                                if rows.len() != 5 || vs.len() != 1 { bad.push(("stress/torn-read".into(), format!("every version has 5 rows with one value: {rows:?}"))) }
                            }
                        }
                        // my own appends are there
                        match run(w.clone(), format!("SELECT n FROM log WHERE c = {c} ORDER BY n")).await {
                            Err(e) => bad.push(("stress/read-failed".into(), e)),
                            Ok(rows) => if rows.iter().map(|x| x[0].clone()).collect::<Vec<_>>() != logged.iter().map(|x: &usize| x.to_string()).collect::<Vec<_>>() { bad.push(("stress/own-writes".into(), format!("appended {logged:?}, reads {rows:?}"))) }
                        }
                    } else {
                        if let Err(e) = run(w.clone(), "SELECT k, v FROM counter".into()).await { bad.push(("stress/read-failed".into(), e)) }
                    }
                }
            }
            (c, logged, copied, bad)
        }));
    }
    // somebody else creates and drops tables of their own all the while
    let churn = { let (w, stop) = (w.ways[0].clone(), stop.clone()); tokio::spawn(async move {
        let (mut n, mut bad): (u64, Vec<(String, String)>) = (0, vec![]);
        while !stop.load(Ordering::SeqCst) {
            for (i, s) in ["CREATE TABLE churn (k INT)", "INSERT INTO churn VALUES (1)", "SELECT k, 1 FROM churn", "DROP TABLE churn"].iter().enumerate() {
                match run(w.clone(), s.to_string()).await { Err(e) => { bad.push(("stress/own-table".into(), format!("step {i}: {s}: {e}"))); } Ok(_) => {} }
            }
            if !bad.is_empty() { break }
            n += 1;
        }
        (n, bad)
    }) };
    let mut want_log = vec![];
    let mut want_copies = vec![];
    for t in tasks {
        match t.await {
            Err(e) => ctx.violation("stress/panic", format!("{e} {}", sfv::last_panic_any())),
            Ok((c, l, k, bad)) => { want_log.extend(l.into_iter().map(|i| vec![c.to_string(), i.to_string()])); want_copies.extend(k); for (s, d) in bad { ctx.violation(&s, format!("{} ({})", d, w.kind)) } }
        }
    }
    stop.store(true, Ordering::SeqCst);
    if let Ok((n, bad)) = churn.await { ctx.count("tables_churned", n); for (s, d) in bad { ctx.violation(&s, format!("{} ({})", d, w.kind)) } }
    let ups = ups.load(Ordering::SeqCst);
    ctx.count("increments", ups);
    let sql = |s: &'static str| { let w = w.ways[3].clone(); async move { run(w, s.to_string()).await } };
    let got = sql("SELECT k, v FROM counter ORDER BY k").await;
    ctx.check(matches!(&got, Ok(g) if g.iter().map(|x| x[1].clone()).collect::<Vec<_>>() == vec![ups.to_string(); 5]), "stress/lost-update", || format!("{ups} increments reported success ({}), the counters say {got:?}", w.kind));
    let mut got = sql("SELECT c, n FROM log").await.unwrap_or_default();
    got.sort(); want_log.sort();
    ctx.check(got == want_log, "stress/lost-append", || format!("{} rows appended successfully, {} there ({})", want_log.len(), got.len(), w.kind));
    let got = sql("SELECT c, count(*), count(distinct v), count(distinct k) FROM copies GROUP BY c").await.unwrap_or_default();
    ctx.check(got.len() == want_copies.len() && got.iter().all(|x| x[1] == "5" && x[2] == "1" && x[3] == "5"), "stress/torn-copy", || format!("{} copies made: {got:?}", want_copies.len()));
    ctx.eval(&format!("stress/{}", w.kind), true);
}

pub fn c52(ctx: &Ctx) {
    ctx.rule("one evaluation = one history of overlapping statements for which an explaining order was sought, or one stress run whose counters, appends and copies were added up; distinct by (set-up, kinds of statements, clients); trivial when nothing overlapped");
    ctx.assume("UPDATEs and DELETEs in histories select by key among rows that no concurrent INSERT adds, since Delta commits an append and a rewrite that would not have seen each other");
    ctx.assume("a table isn't renamed while another client drops or renames it: both look up the table by name and then act on its number, so both can succeed (DESIGN.md)");
    ctx.assume("statements which overlap one that changes the same table may be refused");
    std::env::set_var("RUST_BACKTRACE", "0");
    let rt = super::rt(8);
    rt.block_on(async {
        let mut r = ctx.rng("conc");
        for round in 0..ctx.n(18, 400) {
            if ctx.out_of_time() { break }
            histories(ctx, &mut r, round as usize).await;
            if round % 3 == 0 { stress(ctx, &mut r, (round / 3) as usize).await }
        }
    });
}
