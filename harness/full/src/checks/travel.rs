//! C14: what a table was like at some time
use super::http::{post, routes};
use crate::sf::{self, Sf};
use chrono::{DateTime, Duration as Span, FixedOffset, Utc};
use seafowl::config::schema::{AccessSettings, HttpFrontend};
use seafowl::context::SeafowlContext;
use seafowl::version::TableVersionProcessor;
use sfv::rand::rngs::StdRng;
use sfv::rand::{Rng, SeedableRng};
use sfv::{chance, pick, Ctx};
use std::collections::BTreeMap;
use std::sync::Arc;

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}

fn versions(ctx: &Ctx) {
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    for case in 0..ctx.n(20_000, 1_000_000) as u64 {
        if ctx.used(0.3) { break; }
        let r = &mut ctx.rng_n("version", case);
        let y = *pick(r, &[1970i64, 1969, 2000, 1999, 2024, 2023, 2038, 9999, 1, 1900, 2100]);
        let y = if chance(r, 0.5) { r.gen_range(1901..2200) } else { y };
        let m = r.gen_range(1..=12i64);
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
        let d = if chance(r, 0.3) { dim } else { r.gen_range(1..=dim) };
        let (h, mi, s) = if chance(r, 0.2) { *pick(r, &[(0, 0, 0), (23, 59, 59), (12, 0, 0)]) } else { (r.gen_range(0..24i64), r.gen_range(0..60i64), r.gen_range(0..60i64)) };
        let days = days_from_civil(y, m, d);
        let local = days * 86400 + h * 3600 + mi * 60 + s;
        let off = *pick(r, &[0i64, 60, -60, 120, 330, 345, -210, 720, -720, 840, -705, 1, -1, 1439, -1439]);
        let (sg, oh, om) = (if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60);
        let digits = r.gen_range(0..=9usize);
        let frac: u32 = r.gen_range(0..10u32.pow(digits as u32).max(1));
        let nanos = frac as i64 * 10i64.pow(9 - digits as u32);
        let fr = if digits == 0 { String::new() } else { format!(".{frac:0digits$}") };
        let (txt, want): (String, Option<(i64, i64)>) = match r.gen_range(0..9) {
            0 => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{fr}{sg}{oh:02}:{om:02}"), Some((local - off * 60, nanos))),
            1 => (format!("{y:04}-{m:02}-{d:02}{}{h:02}:{mi:02}:{s:02}{fr}{}", pick(r, &["T", "t"]), pick(r, &["Z", "z"])), Some((local, nanos))),
            2 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{}{om:02}", pick(r, &["", ":"])), Some((local - off * 60, 0))),
            3 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}"), Some((local, 0))),
            4 => (format!("{}, {d:02} {} {y:04} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{om:02}", wd[days.rem_euclid(7) as usize], mon[m as usize - 1]), Some((local - off * 60, 0))),
            5 => (format!("{d} {} {y:04} {h:02}:{mi:02}:{s:02} GMT", mon[m as usize - 1]), if y >= 1900 { Some((local, 0)) } else { None }),
            // wrong weekday, impossible dates and times, garbage
            6 => (format!("{}, {d:02} {} {y:04} {h:02}:{mi:02}:{s:02} +0000", wd[(days + r.gen_range(1..6)).rem_euclid(7) as usize], mon[m as usize - 1]), None),
            7 => match r.gen_range(0..6) {
                0 => (format!("{y:04}-{m:02}-{:02} {h:02}:{mi:02}:{s:02}", dim + 1), None),
                1 => (format!("{y:04}-13-{d:02} {h:02}:{mi:02}:{s:02}"), None),
                2 => (format!("{y:04}-{m:02}-{d:02} 24:{mi:02}:{s:02}"), None),
                3 => (format!("{y:04}-{m:02}-{d:02} {h:02}:60:{s:02}"), None),
                4 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} +02:00x"), None),
                _ => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}"), None),
            },
            _ => (pick(r, &["", "now", "latest", "5", "2020", "2020-01-01", "12:00:00", "yesterday", "2020-01-01 00:00", "\u{0}", "٢٠٢٠-01-01 00:00:00"]).to_string(), None),
        };
        // the mail format writes years below 1900 in other ways
        if y < 1900 && txt.contains(',') { continue; }
        if y < 1900 && txt.contains("GMT") { continue; }
        ctx.eval(&txt, true);
        match sfv::guarded(|| TableVersionProcessor::version_to_datetime(&txt)) {
            Err(p) => ctx.violation("version-panic", format!("{txt:?}: {p}")),
            Ok(Ok(dt)) => match want {
                None => {
                    ctx.violation("not-a-version-accepted", format!("{txt:?} read as {dt}"));
                }
                Some((sec, ns)) => { ctx.count("version texts read", 1); ctx.check((dt.timestamp(), dt.timestamp_subsec_nanos() as i64) == (sec, ns), "version-instant", || format!("{txt:?} read as {dt} = {}.{:09}, wanted {sec}.{ns:09}", dt.timestamp(), dt.timestamp_subsec_nanos())); }
            },
            Ok(Err(e)) => match want {
                None => ctx.count("version texts refused", 1),
                Some(_) => ctx.violation("version-refused", format!("{txt:?}: {e}")),
            },
        }
    }
}

type Rows = Vec<(i64, i64)>;

/// a table's past: what it held after each change, and between when and when the change was made
#[derive(Clone, Default)]
struct Past { steps: Vec<(DateTime<Utc>, DateTime<Utc>, Rows)>, schema: String, name: String }
impl Past {
    fn now(&self) -> Rows { self.steps.last().map(|s| s.2.clone()).unwrap_or_default() }
    /// everything it may have held at that time, as far as the clock can tell; None when it may not have been there
    fn at(&self, t: DateTime<Utc>) -> Vec<Option<&Rows>> {
        let slack = Span::milliseconds(15);
        let mut out: Vec<Option<&Rows>> = vec![None];
        for (from, to, rows) in &self.steps {
            if *to + slack <= t { out = vec![Some(rows)] } else if *from - slack <= t { out.push(Some(rows)) }
        }
        if out.contains(&None) { out.push(self.steps.first().map(|s| &s.2)) }
        out
    }
    fn sql(&self) -> String { format!("{}.{}", quote(&self.schema), quote(&self.name)) }
}
fn quote(s: &str) -> String { format!("\"{s}\"") }

/// a text for about this instant, and the instant that it is
fn text(r: &mut StdRng, t: DateTime<Utc>) -> (String, DateTime<Utc>) {
    let off = FixedOffset::east_opt(*pick(r, &[0, 3600, -3600, 7200, 19800, -12600, 43200]) ).unwrap();
    let l = t.with_timezone(&off);
    let s = |f: &str, t: DateTime<FixedOffset>| t.format(f).to_string();
    let whole = DateTime::from_timestamp(t.timestamp(), 0).unwrap();
    match r.gen_range(0..7) {
        0 => (s("%Y-%m-%d %H:%M:%S", t.fixed_offset()), whole),
        1 => (s("%Y-%m-%d %H:%M:%S %z", l), whole),
        2 => (l.to_rfc2822(), whole),
        3 => (s("%Y-%m-%dT%H:%M:%S%.3fZ", t.fixed_offset()), DateTime::from_timestamp_millis(t.timestamp_millis()).unwrap()),
        _ => (s("%Y-%m-%dT%H:%M:%S%.3f%:z", l), DateTime::from_timestamp_millis(t.timestamp_millis()).unwrap()),
    }
}

async fn change(ctx: &Ctx, sf: &Sf, p: &mut Past, q: &str, rows: Rows) -> bool {
    tokio::time::sleep(std::time::Duration::from_millis(22)).await;
    let from = Utc::now();
    if let Err(e) = sf.sql(q).await { ctx.violation("setup", format!("{q}: {e}")); return false }
    let mut rows = rows;
    rows.sort();
    p.steps.push((from, Utc::now(), rows));
    tokio::time::sleep(std::time::Duration::from_millis(22)).await;
    true
}

async fn history(ctx: &Ctx, r: &mut StdRng, round: u64) {
    let sf = if round % 3 == 2 { Sf::memory("").await } else { Sf::disk("").await };
    let before = Utc::now();
    for s in ["s2", "Upper"] { sf.sql(&format!("CREATE SCHEMA {}", quote(s))).await.unwrap(); }
    let places = [("public", "t"), ("s2", "t"), ("public", "Mixed Case"), ("Upper", "T"), ("s2", "x.y")];
    let mut pasts: Vec<Past> = vec![];
    for (s, n) in places.iter().take(r.gen_range(3..=5)) {
        let mut p = Past { schema: s.to_string(), name: n.to_string(), ..Default::default() };
        let q = if chance(r, 0.5) { format!("CREATE TABLE {} (k BIGINT, v BIGINT)", p.sql()) } else { format!("CREATE TABLE {} AS SELECT column1 AS k, column2 AS v FROM (VALUES (-1, {round}))", p.sql()) };
        let rows = if q.contains("VALUES") { vec![(-1, round as i64)] } else { vec![] };
        if !change(ctx, &sf, &mut p, &q, rows).await { return }
        // made and filled aren't one change: the very first version is the empty table
        if q.contains("VALUES") { let s = p.steps[0].clone(); p.steps.insert(0, (s.0, s.1, vec![])); }
        pasts.push(p);
    }
    for i in 0..r.gen_range(6..12i64) {
        let j = r.gen_range(0..pasts.len());
        let p = &mut pasts[j];
        let mut rows = p.now();
        let (kind, q) = match r.gen_range(0..10) {
            0..=3 => { let v = r.gen_range(0..100); rows.push((i, v)); ("insert", format!("INSERT INTO {} VALUES ({i}, {v})", p.sql())) }
            4 | 5 => { for x in &mut rows { x.1 += 1 } ("update", format!("UPDATE {} SET v = v + 1", p.sql())) }
            6 => { let k = rows.first().map(|x| x.0).unwrap_or(0); rows.retain(|x| x.0 != k); ("delete", format!("DELETE FROM {} WHERE k = {k}", p.sql())) }
            7 => { rows.clear(); ("truncate", format!("DELETE FROM {}", p.sql())) }
            8 => {
                let n = format!("renamed {i}");
                let q = format!("ALTER TABLE {} RENAME TO {}.{}", p.sql(), quote(&p.schema), quote(&n));
                if let Err(e) = sf.sql(&q).await { ctx.violation("setup", format!("{q}: {e}")); return }
                p.name = n;
                ctx.seen("changes", "rename");
                continue;
            }
            _ => {
                let q = format!("DROP TABLE {}", p.sql());
                if let Err(e) = sf.sql(&q).await { ctx.violation("setup", format!("{q}: {e}")); return }
                p.steps.clear();
                rows.clear();
                ("again", format!("CREATE TABLE {} (k BIGINT, v BIGINT)", p.sql()))
            }
        };
        ctx.seen("changes", kind);
        if !change(ctx, &sf, &mut pasts[j], &q, rows).await { return }
    }
    let cfg = HttpFrontend { bind_host: "127.0.0.1".into(), bind_port: 0, read_access: AccessSettings::Any, write_access: AccessSettings::Any, upload_data_max_length: 1, cache_control: "private".into() };
    let http = routes(&sf.ctx, cfg);
    let (pasts, after) = (Arc::new(pasts), Utc::now());
    // one question: references to tables at times, and what they may hold
    let question = |r: &mut StdRng| {
        let p = r.gen_range(0..pasts.len());
        let p = &pasts[p];
        let span = (after - before).num_milliseconds();
        let t = match r.gen_range(0..10) { 0 => before - Span::seconds(r.gen_range(1..100)), 1 => after + Span::seconds(r.gen_range(1..100_000)), 2..=6 => { let s = pick(r, &p.steps); s.1 + Span::milliseconds(18) } _ => before + Span::milliseconds(r.gen_range(0..span)) };
        let (txt, t) = text(r, t);
        let plain = p.name.chars().all(|c| c.is_ascii_lowercase());
        let (scope, name) = match r.gen_range(0..4) {
            0 => (Some(p.schema.clone()), if plain { p.name.clone() } else { quote(&p.name) }),
            1 => (None, format!("\"default\".{}", p.sql())),
            2 if plain && p.schema == "public" => (None, p.name.to_uppercase()),
            _ => (None, p.sql()),
        };
        (p, t, txt, scope, name)
    };
    for n in 0..40 {
        if ctx.out_of_time() { return }
        let (p, t, txt, scope, name) = question(r);
        let c: Arc<SeafowlContext> = match &scope { Some(s) => sf.ctx.scope_to_schema(s.clone()), None => sf.ctx.clone() };
        let may = p.at(t);
        let form = n % 6;
        let (p2, t2, txt2, _, _) = question(r);
        let q = match form {
            0 | 1 => format!("SELECT k, v FROM {name}('{txt}') ORDER BY k, v"),
            2 => format!("SELECT k, v FROM (SELECT * FROM {name}('{txt}') AS a) AS b ORDER BY k, v"),
            3 => format!("WITH w AS (SELECT * FROM {name}('{txt}')) SELECT k, v FROM w ORDER BY k, v"),
            // beside another table or the same one at another time, which must be there for this
            4 => format!("SELECT k, v FROM {name}('{txt}') EXCEPT SELECT k, v FROM {}('{txt2}') WHERE false ORDER BY k, v", p2.sql()),
            _ => format!("SELECT a.k, a.v FROM {name}('{txt}') a LEFT JOIN {} b ON false ORDER BY a.k, a.v", p.sql()),
        };
        let rep = |d: String| format!("{q} (schema {scope:?}): {d}; the table was {:?}", p.steps.iter().map(|s| (s.0.to_rfc3339(), s.1.to_rfc3339(), &s.2)).collect::<Vec<_>>());
        let got = sf::sql(&c, &q).await;
        let missing = form == 4 && p2.at(t2).contains(&None);
        match got {
            Err(e) => { ctx.check(may.contains(&None) || missing, "history/refused", || rep(e.to_string())); ctx.count("refused", 1) }
            Ok(b) => {
                let mut got: Rows = sf::rows(&b).iter().map(|x| (x[0].parse().unwrap(), x[1].parse().unwrap())).collect();
                got.sort();
                ctx.count("read_as_of", 1);
                if form == 4 { got.dedup() }
                ctx.check(may.iter().flatten().any(|m| { let mut m = (*m).clone(); if form == 4 { m.dedup() } m == got }), "history/rows", || rep(format!("read {got:?}, may be {may:?}")));
                ctx.count(if may.len() == 1 { "certain" } else { "uncertain" }, 1);
            }
        }
        ctx.eval(&format!("{form}/{round}/{n}/{txt}"), may.len() == 1 && p.steps.len() > 1);
    }
    // many at once, while everybody looks at what tables there are
    let seeds: Vec<u64> = (0..6).map(|_| r.gen()).collect();
    futures::future::join_all(seeds.into_iter().map(|s| { let (http, question) = (http.clone(), &question); async move {
        let mut r = StdRng::seed_from_u64(s);
        for _ in 0..4 {
            let (p, t, txt, _, _) = question(&mut r);
            let may = p.at(t);
            let q = format!("SELECT count(*) AS c, coalesce(sum(v), 0) AS s FROM {}('{txt}')", p.sql());
            match post(&http, "/q", &q, &[]).await {
                Ok(a) if a.status == 200 => {
                    let j: BTreeMap<String, i64> = serde_json::from_str(a.text().trim()).unwrap_or_default();
                    ctx.count("read_as_of_at_once", 1);
                    ctx.check(may.iter().flatten().any(|m| j.get("c") == Some(&(m.len() as i64)) && j.get("s") == Some(&m.iter().map(|x| x.1).sum())), "concurrent/rows", || format!("{q}: {} may be {may:?}", a.text()));
                }
                other => { ctx.check(may.contains(&None), "concurrent/refused", || format!("{q}: {other:?} may be {may:?}")); }
            }
            match post(&http, "/q", "SELECT table_name AS n FROM information_schema.tables", &[]).await {
                Ok(a) if a.status == 200 => { ctx.check(!a.text().contains(':') || !a.text().lines().any(|l| l.contains(":20")), "concurrent/listed", || format!("versions are listed as tables: {}", a.text())); }
                other => { ctx.violation("concurrent/listing-failed", format!("{other:?}")); }
            }
        }
    }})).await;
    ctx.seen("set_ups", if round % 3 == 2 { "memory" } else { "disk" });
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("one evaluation = one version text read as an instant (distinct by text), or one query of a table as of a time (distinct by history, form and text; trivial when the clock leaves it open what the table held)");
    ctx.assume("a time before the table existed may also read as its first version, as delta-rs does");
    std::env::set_var("RUST_BACKTRACE", "0");
    versions(ctx);
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("travel");
        for round in 0..ctx.n(9, 300) as u64 {
            if ctx.out_of_time() { break }
            history(ctx, &mut r, round).await;
        }
    });
}
