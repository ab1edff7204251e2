//! C44: conditional requests for cached query results
use super::http::{ask, get, percent, post, routes, Answer, Routes};
use crate::sf::Sf;
use seafowl::config::schema::{AccessSettings, HttpFrontend};
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

const TABLES: &[&str] = &["t0", "t1", "t2", "s1.t3"];

/// a query without row order (results are compared as multisets), the tables it reads, and the forms used
struct Gen { tables: BTreeSet<String>, forms: Vec<&'static str>, at: String, n: u32 }
impl Gen {
    fn table(&mut self, r: &mut StdRng) -> String {
        let t = *pick(r, TABLES);
        if chance(r, 0.1) {
            self.forms.push("time-travel");
            return format!("{t}('{}')", self.at);
        }
        if chance(r, 0.06) { self.forms.push("quoted"); self.tables.insert(t.into()); return t.split('.').map(|p| format!("\"{p}\"")).collect::<Vec<_>>().join("."); }
        self.tables.insert(t.into());
        t.to_string()
    }
    /// a query giving one INT column named a and one TEXT column named b
    fn query(&mut self, r: &mut StdRng, depth: u32) -> String {
        self.n += 1;
        let x = format!("x{}", self.n);
        if depth == 0 {
            return format!("SELECT a, b FROM {}", self.table(r));
        }
        match r.gen_range(0..17) {
            0 => format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE {x}.a > {}", self.table(r), r.gen_range(-2..6)),
            1 => { self.forms.push("join"); format!("SELECT {x}.a, y{x}.b FROM {} {x} JOIN ({}) y{x} ON {x}.a = y{x}.a", self.table(r), self.query(r, depth - 1)) }
            2 => { self.forms.push("left-join"); format!("SELECT {x}.a, y{x}.b FROM {} {x} LEFT JOIN ({}) y{x} ON {x}.a = y{x}.a", self.table(r), self.query(r, depth - 1)) }
            3 => { self.forms.push("in-subquery"); format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE {x}.a IN (SELECT q.a FROM ({}) q)", self.table(r), self.query(r, depth - 1)) }
            4 => { self.forms.push("not-in-subquery"); format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE {x}.a NOT IN (SELECT q.a FROM ({}) q WHERE q.a IS NOT NULL)", self.table(r), self.query(r, depth - 1)) }
            5 => { self.forms.push("exists"); format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE EXISTS (SELECT 1 FROM ({}) q WHERE q.a = {x}.a)", self.table(r), self.query(r, depth - 1)) }
            6 => { self.forms.push("not-exists"); format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE NOT EXISTS (SELECT 1 FROM ({}) q WHERE q.a = {x}.a)", self.table(r), self.query(r, depth - 1)) }
            7 => { self.forms.push("scalar-subquery"); format!("SELECT CAST((SELECT count(*) FROM ({}) q) AS INT) AS a, {x}.b FROM {} {x}", self.query(r, depth - 1), self.table(r)) }
            8 => { self.forms.push("scalar-compare"); format!("SELECT {x}.a, {x}.b FROM {} {x} WHERE {x}.a <= (SELECT max(q.a) FROM ({}) q)", self.table(r), self.query(r, depth - 1)) }
            9 => { self.forms.push("cte"); format!("WITH c{x} AS ({}) SELECT a, b FROM c{x}", self.query(r, depth - 1)) }
            10 => { self.forms.push("cte-twice"); format!("WITH c{x} AS ({}), d{x} AS (SELECT max(a) AS m FROM c{x}) SELECT c{x}.a, c{x}.b FROM c{x}, d{x} WHERE c{x}.a <= d{x}.m", self.query(r, depth - 1)) }
            11 => { self.forms.push("union-all"); format!("SELECT a, b FROM ({}) l{x} UNION ALL SELECT a, b FROM ({}) r{x}", self.query(r, depth - 1), self.query(r, depth - 1)) }
            12 => { self.forms.push("set-op"); let op = *pick(r, &["UNION", "INTERSECT", "EXCEPT"]); format!("SELECT a, b FROM ({}) l{x} {op} SELECT a, b FROM ({}) r{x}", self.query(r, depth - 1), self.query(r, depth - 1)) }
            13 => { self.forms.push("aggregate"); format!("SELECT CAST(count(*) AS INT) AS a, {x}.b FROM ({}) {x} GROUP BY {x}.b HAVING count(*) > (SELECT count(*) - 100 FROM {})", self.query(r, depth - 1), self.table(r)) }
            14 => { self.forms.push("window"); format!("SELECT CAST(row_number() OVER (ORDER BY {x}.a, {x}.b) AS INT) AS a, {x}.b FROM ({}) {x}", self.query(r, depth - 1)) }
            15 => { self.forms.push("case-subquery"); format!("SELECT CASE WHEN (SELECT count(*) FROM ({}) q) > 2 THEN 1 ELSE 0 END AS a, {x}.b FROM {} {x}", self.query(r, depth - 1), self.table(r)) }
            _ => { self.forms.push("derived"); format!("SELECT {x}.a, {x}.b FROM ({}) {x}", self.query(r, depth - 1)) }
        }
    }
}

async fn mutate(s: &Sf, r: &mut StdRng, n: u64) -> String {
    let t = *pick(r, TABLES);
    let q: Vec<String> = match r.gen_range(0..9) {
        0 | 1 => vec![format!("INSERT INTO {t} VALUES ({}, 'v{}')", r.gen_range(0..6), n % 5)],
        2 => vec![format!("DELETE FROM {t} WHERE a = {}", r.gen_range(0..6))],
        3 => vec![format!("UPDATE {t} SET b = 'u{n}' WHERE a <= {}", r.gen_range(0..6))],
        4 => vec![format!("TRUNCATE TABLE {t}"), format!("INSERT INTO {t} VALUES ({}, 'w')", r.gen_range(0..6))],
        5 => vec![format!("DROP TABLE {t}"), format!("CREATE TABLE {t} (a INT, b TEXT)"), format!("INSERT INTO {t} VALUES ({}, 'fresh{n}'), (2, 'z')", r.gen_range(0..6))],
        6 => {
            // two tables change places
            let u = *pick(r, &["t0", "t1", "t2"]);
            let v = *pick(r, &["t0", "t1", "t2"]);
            if u == v { vec![] } else { vec![format!("ALTER TABLE {u} RENAME TO swap"), format!("ALTER TABLE {v} RENAME TO {u}"), format!("ALTER TABLE swap RENAME TO {v}")] }
        }
        7 => vec![format!("VACUUM TABLE {t}")],
        _ => vec![format!("CREATE TABLE side{n} (x INT)"), format!("INSERT INTO side{n} VALUES (1)"), format!("DROP TABLE side{n}")],
    };
    for q in &q {
        s.sql(q).await.unwrap_or_else(|e| panic!("{q}: {e}"));
    }
    q.join("; ")
}

fn lines(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(b).lines().map(|l| l.to_string()).collect();
    v.sort();
    v
}

async fn contents(s: &Sf) -> BTreeMap<String, Vec<Vec<String>>> {
    let mut m = BTreeMap::new();
    for t in TABLES {
        let mut v = s.rows(&format!("SELECT a, b FROM {t}")).await.unwrap();
        v.sort();
        m.insert(t.to_string(), v);
    }
    m
}

struct Cached { text: String, tables: BTreeSet<String>, forms: Vec<&'static str>, tag: String, rows: Vec<String>, contents: BTreeMap<String, Vec<Vec<String>>>, log: Vec<String> }

pub fn c44(ctx: &Ctx) {
    ctx.rule("one evaluation = one conditional GET with an earlier tag, judged against the rows that POST gives now and against the contents of the tables the query reads; non-trivial when some table was changed in between");
    ctx.assume("functions that a query calls are not replaced between the requests, and it calls none that gives a different value each time");
    super::rt(4).block_on(async {
        let mut r = ctx.rng("c44");
        let mut n = 0u64;
        for _ in 0..ctx.n(6, 150) {
            if ctx.out_of_time() { break }
            let s = Sf::memory("").await;
            s.sql("CREATE SCHEMA s1").await.unwrap();
            for t in TABLES {
                s.sql(&format!("CREATE TABLE {t} (a INT, b TEXT)")).await.unwrap();
                s.sql(&format!("INSERT INTO {t} VALUES (1, 'one'), (2, 'two'), (3, 'three')")).await.unwrap();
            }
            tokio::time::sleep(std::time::Duration::from_millis(1100)).await;
            let at = chrono::Utc::now().format("%Y-%m-%d %H:%M:%S").to_string();
            let any: AccessSettings = serde_json::from_str("\"any\"").unwrap();
            let rts = routes(&s.ctx, HttpFrontend { read_access: any.clone(), write_access: any, ..Default::default() });
            let mut cached: Vec<Cached> = vec![];
            for _ in 0..40 {
                if ctx.out_of_time() { break }
                n += 1;
                if cached.len() < 4 || chance(&mut r, 0.25) {
                    // a new query
                    let mut g = Gen { tables: Default::default(), forms: vec![], at: at.clone(), n: 0 };
                    let depth = r.gen_range(0..4);
                    let text = g.query(&mut r, depth);
                    let p = post(&rts, "/q", &text, &[]).await.unwrap();
                    let a = get(&rts, "/q", &text, &[]).await.unwrap();
                    if p.status != 200 || String::from_utf8_lossy(&p.body).contains("rror") {
                        ctx.count("not_supported_by_the_engine", 1);
                        ctx.seen("unsupported", &p.text());
                        if std::env::var("SFV_SHOW").is_ok() { eprintln!("{text}\n  {}", p.text()); }
                        continue;
                    }
                    ctx.check(a.status == 200 && lines(&a.body) == lines(&p.body), "etag-get-differs-from-post", || format!("{text}: GET {} {:?}, POST {:?}", a.status, a.text(), p.text()));
                    let Some(tag) = a.header("etag") else { ctx.violation("etag-missing", &text); continue };
                    if cached.len() >= 8 { let i = r.gen_range(0..cached.len()); cached.remove(i); }
                    cached.push(Cached { text, tables: g.tables, forms: g.forms, tag, rows: lines(&a.body), contents: contents(&s).await, log: vec![] });
                }
                let what = if chance(&mut r, 0.8) { mutate(&s, &mut r, n).await } else { String::new() };
                let now = contents(&s).await;
                for c in &mut cached {
                    if !what.is_empty() { c.log.push(what.clone()); }
                    let p = post(&rts, "/q", &c.text, &[]).await.unwrap();
                    let a = get(&rts, "/q", &c.text, &[("if-none-match", &c.tag)]).await.unwrap();
                    if p.text().contains("rror") && c.forms.contains(&"time-travel") && c.log.iter().any(|l| l.contains("VACUUM") || l.contains("DROP")) {
                        // the version it names is gone for good
                        c.text.clear();
                        ctx.count("version_vacuumed", 1);
                        continue;
                    }
                    let touched = c.tables.iter().any(|t| c.contents[t] != now[t]);
                    let desc = |why: &str| format!("{why}: {} (tables {:?}) with tag {} after {:?}: {} {:?}; POST says {:?}; before: {:?}", c.text, c.tables, c.tag, c.log, a.status, a.text(), p.text(), c.rows);
                    let form = if c.forms.is_empty() { "plain".to_string() } else { let mut f = c.forms.clone(); f.sort(); f.dedup(); f.join("+") };
                    match a.status {
                        304 => {
                            ctx.check(lines(&p.body) == c.rows, "etag-304-stale", || desc("told that an old result is still right"));
                            ctx.check(!touched, "etag-304-table-changed", || desc("304 although a table that it reads has changed"));
                        }
                        200 => {
                            ctx.check(lines(&a.body) == lines(&p.body), "etag-200-rows", || desc("rows differ"));
                            ctx.check(!c.log.is_empty(), "etag-200-unchanged", || desc("nothing has changed, but not revalidated"));
                        }
                        _ => { ctx.violation("etag-status", desc("odd status")); }
                    }
                    ctx.eval(&(&form, c.log.len() > 0, a.status, touched), !c.log.is_empty());
                    ctx.seen("query_forms", &form);
                    ctx.seen("queries", &c.text);
                    ctx.count(if a.status == 304 { "revalidated" } else { "answered_fresh" }, 1);
                    if touched { ctx.count("after_a_change_to_a_table_read", 1); }
                    ctx.sample(serde_json::json!({"query": c.text, "changes": c.log, "status": a.status}));
                    if a.status == 200 {
                        if let Some(tag) = a.header("etag") {
                            c.tag = tag;
                            c.rows = lines(&a.body);
                            c.contents = now.clone();
                            c.log.clear();
                        }
                    }
                }
                cached.retain(|c| !c.text.is_empty());
            }
            // sources other than Seafowl's own tables: what they give may not be called unchanged when it has changed
            let file = s.dir.join("ext.csv");
            std::fs::write(&file, "a,b\n1,one\n").unwrap();
            s.sql(&format!("CREATE EXTERNAL TABLE ext STORED AS CSV OPTIONS ('format.has_header' 'true') LOCATION '{}'", file.display())).await.unwrap();
            for (kind, q, change) in [
                ("tables", "SELECT table_name FROM information_schema.tables", "create"),
                ("columns", "SELECT count(*) AS c FROM information_schema.columns", "create"),
                ("versions", "SELECT table_name, version FROM system.table_versions", "create"),
                ("dropped", "SELECT count(*) AS c FROM system.dropped_tables", "drop"),
                ("show", "SHOW TABLES", "create"),
                ("external", "SELECT a, b FROM staging.ext", "file"),
                ("external-join", "SELECT e.a, t0.b FROM staging.ext e CROSS JOIN t0", "file"),
                ("listing-subquery", "SELECT 1 AS o WHERE (SELECT count(*) FROM information_schema.tables) % 2 = 0", "create"),
            ] {
                let a = get(&rts, "/q", q, &[]).await.unwrap();
                if a.status != 200 { ctx.inconclusive(format!("{q}: {} {}", a.status, a.text())); continue }
                n += 1;
                match change {
                    "create" => { s.sql(&format!("CREATE TABLE extra{n} (x INT)")).await.unwrap(); }
                    "drop" => { s.sql(&format!("CREATE TABLE extra{n} (x INT)")).await.unwrap(); s.sql(&format!("DROP TABLE extra{n}")).await.unwrap(); }
                    _ => std::fs::write(&file, format!("a,b\n1,one\n{n},more\n")).unwrap(),
                }
                let b = get(&rts, "/q", q, &[("if-none-match", &a.header("etag").unwrap_or_default())]).await.unwrap();
                let p = post(&rts, "/q", q, &[]).await.unwrap();
                if lines(&p.body) != lines(&a.body) { ctx.count("other_sources_changed", 1); }
                ctx.check(if b.status == 304 { lines(&p.body) == lines(&a.body) } else { b.status == 200 && lines(&b.body) == lines(&p.body) }, &format!("etag-304-other-source-{kind}"), || format!("{q}: {} {:?}, before: {:?}", b.status, b.text(), a.text()));
                ctx.eval(&("other-source", kind), true);
            }
            // the hash in the URL
            for _ in 0..20 {
                let q = format!("SELECT {} AS a", r.gen_range(0..1_000_000));
                let mut h = hex::encode(Sha256::digest(q.as_bytes()));
                let other = format!("SELECT {} AS a", r.gen_range(0..1_000_000));
                let kind = r.gen_range(0..9);
                let right = match kind {
                    0 => true,
                    1 => { h.push_str(".csv"); true }
                    2 => { h = hex::encode(Sha256::digest(other.as_bytes())); other == q }
                    3 => { h.pop(); false }
                    4 => { h.push('0'); false }
                    5 => { h = h.replace('a', "b"); h == hex::encode(Sha256::digest(q.as_bytes())) }
                    6 => { h = hex::encode(Sha256::digest(format!("{q} ").as_bytes())); false }
                    7 => { h = h[..8].to_string(); false }
                    _ => { h = "any".into(); false }
                };
                let body = chance(&mut r, 0.5);
                let a = if body {
                    ask(&rts, "GET", &format!("/q/{h}"), &[("content-type", "application/json")], serde_json::json!({"query": q.replace('%', "%25")}).to_string().into_bytes()).await
                } else {
                    let e = percent(&q);
                    ask(&rts, "GET", &format!("/q/{h}"), &[("x-seafowl-query", &e)], vec![]).await
                }.unwrap();
                let ok = if right { a.status == 200 && a.text() == format!("{{\"a\":{}}}\n", q.split(' ').nth(1).unwrap()) } else { a.status == 400 && !a.text().contains("{\"a\"") };
                ctx.check(ok, "etag-hash", || format!("{q} asked for as {h} (right: {right}): {} {:?}", a.status, a.text()));
                ctx.eval(&("hash", kind, body), true);
            }
        }
    });
}
