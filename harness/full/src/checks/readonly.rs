//! C43: callers without write access change nothing
use super::http::{ask, get, percent, post, routes, Answer};
use crate::sf::{difference, Sf};
use seafowl::config::schema::{AccessSettings, HttpFrontend};
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use std::collections::BTreeMap;

fn access(text: &str) -> AccessSettings {
    let t = if text == "any" || text == "off" { text.to_string() } else { hex::encode(<sha2::Sha256 as sha2::Digest>::digest(text.as_bytes())) };
    serde_json::from_value(serde_json::Value::String(t)).unwrap()
}

const WASM: &str = "AGFzbQEAAAABBgFgAX8BfwMCAQAHBQEBZgAACgYBBAAgAAs=";

/// (kind, text) of a statement that changes something, when run by someone who may
fn mutation(r: &mut StdRng, dir: &str, n: u64) -> (&'static str, String) {
    let t = format!("n{n}");
    let all: Vec<(&'static str, String)> = vec![
        ("create-table", format!("CREATE TABLE {t} (a INT)")),
        ("create-table-as", format!("CREATE TABLE {t} AS SELECT * FROM base")),
        ("create-table-as-values", format!("CREATE TABLE {t} AS VALUES (1), (2)")),
        ("select-into", format!("SELECT * INTO {t} FROM base")),
        ("select-into-lower", format!("select a, b into {t} from base where a > 0 order by 1 limit 1")),
        ("select-into-literal", format!("SELECT 1 AS x INTO {t}")),
        ("with-select-into", format!("WITH c AS (SELECT a FROM base) SELECT * INTO {t} FROM c")),
        ("paren-select-into", format!("(SELECT * INTO {t} FROM base)")),
        ("union-into-first", format!("SELECT a INTO {t} FROM base UNION ALL SELECT 7")),
        ("union-into-second", format!("SELECT 7 UNION ALL SELECT a INTO {t} FROM base")),
        ("paren-into-order", format!("(SELECT a INTO {t} FROM base) ORDER BY 1 LIMIT 3")),
        ("select-into-existing-schema", format!("SELECT * INTO s1.{t} FROM base")),
        ("select-into-temp", format!("SELECT * INTO TEMPORARY {t} FROM base")),
        ("subquery-into", format!("SELECT * FROM (SELECT a INTO {t} FROM base) q")),
        ("cte-into", format!("WITH c AS (SELECT a INTO {t} FROM base) SELECT * FROM c")),
        ("insert", "INSERT INTO base VALUES (9, 'nine')".into()),
        ("insert-select", "INSERT INTO base SELECT a + 100, b FROM base".into()),
        ("insert-overwrite", "INSERT OVERWRITE base VALUES (9, 'nine')".into()),
        ("replace-into", "REPLACE INTO base VALUES (9, 'nine')".into()),
        ("with-insert", "WITH c AS (SELECT 5 AS a, 'five' AS b) INSERT INTO base SELECT * FROM c".into()),
        ("update", "UPDATE base SET b = 'changed' WHERE a = 1".into()),
        ("with-update", "WITH c AS (SELECT 1) UPDATE base SET b = 'changed'".into()),
        ("delete", "DELETE FROM base WHERE a = 1".into()),
        ("delete-all", "DELETE FROM base".into()),
        ("truncate", "TRUNCATE TABLE base".into()),
        ("drop-table", "DROP TABLE base".into()),
        ("drop-table-if", "DROP TABLE IF EXISTS s1.inner_table".into()),
        ("drop-schema", "DROP SCHEMA s1 CASCADE".into()),
        ("create-schema", format!("CREATE SCHEMA {t}")),
        ("create-database", format!("CREATE DATABASE {t}")),
        ("drop-database", "DROP DATABASE default".into()),
        ("rename", format!("ALTER TABLE base RENAME TO {t}")),
        ("move", format!("ALTER TABLE base RENAME TO s1.{t}")),
        ("vacuum-table", "VACUUM TABLE base".into()),
        ("vacuum-tables", "VACUUM TABLES".into()),
        ("vacuum-database", "VACUUM DATABASE default".into()),
        ("create-function", format!(r#"CREATE FUNCTION f{n} AS '{{"entrypoint":"f","language":"wasm","input_types":["int"],"return_type":"int","data":"{WASM}"}}'"#)),
        ("replace-function", format!(r#"CREATE OR REPLACE FUNCTION keep AS '{{"entrypoint":"f","language":"wasm","input_types":["int"],"return_type":"int","data":"{WASM}"}}'"#)),
        ("drop-function", "DROP FUNCTION keep".into()),
        ("drop-function-if", "DROP FUNCTION IF EXISTS keep, nothing".into()),
        ("copy-to", format!("COPY base TO '{dir}/out_{n}.parquet'")),
        ("copy-query-to", format!("COPY (SELECT a FROM base) TO '{dir}/out_{n}.csv'")),
        ("copy-to-options", format!("COPY base TO '{dir}/out_{n}/' STORED AS CSV")),
        ("external", format!("CREATE EXTERNAL TABLE {t} STORED AS CSV LOCATION '{dir}/in.csv'")),
        ("create-view", format!("CREATE VIEW {t} AS SELECT * FROM base")),
        ("convert", format!("CONVERT '{dir}/plain' TO DELTA {t}")),
        ("prepare", "PREPARE p AS INSERT INTO base VALUES (3, 'x')".into()),
        ("set", "SET datafusion.execution.batch_size = 1".into()),
        ("call", "CALL anything()".into()),
        ("create-index", "CREATE INDEX i ON base (a)".into()),
        ("merge", "MERGE INTO base USING base s ON base.a = s.a WHEN MATCHED THEN DELETE".into()),
        ("explain-insert", "EXPLAIN ANALYZE INSERT INTO base VALUES (8, 'eight')".into()),
        ("explain-into", format!("EXPLAIN ANALYZE SELECT * INTO {t} FROM base")),
        ("explain-copy", format!("EXPLAIN ANALYZE COPY base TO '{dir}/oute_{n}.parquet'")),
    ];
    pick(r, &all).clone()
}

fn wrap(r: &mut StdRng, m: &str) -> (&'static str, String) {
    match r.gen_range(0..16) {
        0 => ("comment-before", format!("/* SELECT 1 */ {m}")),
        1 => ("line-comment", format!("-- SELECT 1\n{m}")),
        2 => ("then-select", format!("{m}; SELECT 1")),
        3 => ("after-select", format!("SELECT 1; {m}")),
        4 => ("explain", format!("EXPLAIN {m}")),
        5 => ("explain-analyze", format!("EXPLAIN ANALYZE {m}")),
        6 => ("explain-analyze-verbose", format!("EXPLAIN ANALYZE VERBOSE {m}")),
        7 => ("explain-format", format!("EXPLAIN FORMAT INDENT {m}")),
        8 => ("explain-verbose", format!("EXPLAIN VERBOSE {m}")),
        9 => ("explain-paren", format!("EXPLAIN ANALYZE ({m})")),
        10 => ("twice", format!("{m}; {m};")),
        11 => ("blank-first", format!(";;; {m}")),
        12 => ("paren", format!("({m})")),
        _ => ("plain", m.to_string()),
    }
}

async fn fresh() -> Sf {
    let s = Sf::disk("[misc]\ngc_interval = 0").await;
    for q in [
        "CREATE TABLE base AS VALUES (1, 'one'), (2, 'two')",
        "DROP TABLE base",
        "CREATE TABLE base (a INT, b TEXT)",
        "INSERT INTO base VALUES (1, 'one'), (2, 'two')",
        "INSERT INTO base VALUES (3, 'three')",
        "DELETE FROM base WHERE a = 3",
        "CREATE SCHEMA s1",
        "CREATE TABLE s1.inner_table (x INT)",
        "INSERT INTO s1.inner_table VALUES (1)",
        "CREATE DATABASE other",
        "CREATE TABLE gone (a INT)",
        "INSERT INTO gone VALUES (1)",
        "DROP TABLE gone",
    ] {
        s.sql(q).await.unwrap_or_else(|e| panic!("{q}: {e}"));
    }
    s.sql(&format!(r#"CREATE FUNCTION keep AS '{{"entrypoint":"f","language":"wasm","input_types":["int"],"return_type":"int","data":"{WASM}"}}'"#)).await.unwrap();
    std::fs::write(s.dir.join("in.csv"), "q,w\n1,2\n").unwrap();
    std::fs::create_dir_all(s.dir.join("data/plain")).unwrap();
    s.sql(&format!("COPY base TO '{}/data/plain/p.parquet'", s.dir.display())).await.unwrap();
    s
}

/// everything a caller could have changed: files, catalogue rows, and what the session lists
async fn state(s: &Sf) -> BTreeMap<String, String> {
    let mut m = s.state().await;
    for q in [
        "SELECT table_catalog, table_schema, table_name, table_type FROM information_schema.tables",
        "SELECT name, value FROM information_schema.df_settings",
        "SELECT * FROM base",
    ] {
        let mut v = match s.rows(q).await { Ok(v) => v, Err(e) => vec![vec![format!("error {e}")]] };
        v.sort();
        m.insert(format!("query {q}"), format!("{v:?}"));
    }
    let f = s.ctx.inner().state().scalar_functions().len();
    m.insert("functions".into(), f.to_string());
    m
}

pub fn c43(ctx: &Ctx) {
    ctx.rule("one evaluation = one request by a caller without write access (or through GET), with everything stored digested before and after; a case counts as non-trivial when the same text by a writer did change something");
    super::rt(4).block_on(async {
        let mut r = ctx.rng("c43");
        let mut s = fresh().await;
        let mut n = 0u64;
        for _ in 0..ctx.n(420, 6000) {
            if ctx.out_of_time() { break }
            n += 1;
            let dir = s.dir.display().to_string();
            let (kind, m) = mutation(&mut r, &dir, n);
            let (wrapper, text) = wrap(&mut r, &m);
            // who asks: a reader by policy, or anyone through GET
            let through = pick(&mut r, &["post", "post", "post-token", "post-other", "post-off", "get", "get-raw", "get-body", "get-token-writer"]);
            let (read, write) = match *through {
                "post-token" => ("rpw", "wpw"),
                "post-off" => ("any", "off"),
                "get" | "get-raw" | "get-body" => ("any", *pick(&mut r, &["any", "off", "wpw"])),
                "get-token-writer" => ("rpw", "wpw"),
                _ => ("any", "wpw"),
            };
            let rts = routes(&s.ctx, HttpFrontend { read_access: access(read), write_access: access(write), ..Default::default() });
            let before = state(&s).await;
            let ans = match *through {
                "post" | "post-off" => post(&rts, "/q", &text, &[]).await,
                "post-token" => post(&rts, "/q", &text, &[("authorization", "Bearer rpw")]).await,
                "post-other" => post(&rts, "/other/q", &text, &[]).await,
                "get" => get(&rts, "/q", &text, &[]).await,
                "get-body" => ask(&rts, "GET", &format!("/q/{}", hex::encode(<sha2::Sha256 as sha2::Digest>::digest(text.as_bytes()))), &[("content-type", "application/json")], serde_json::json!({"query": text.replace('%', "%25")}).to_string().into_bytes()).await,
                "get-raw" => ask(&rts, "GET", &format!("/q/{}", percent(&text)), &[], vec![]).await,
                _ => get(&rts, "/q", &text, &[("authorization", "Bearer wpw")]).await,
            };
            let ans: Answer = match ans { Ok(a) => a, Err(e) => { ctx.violation(&format!("readonly-panic-{kind}-{wrapper}"), format!("{through} {text}: {e}")); s = fresh().await; continue } };
            let after = state(&s).await;
            let diff = difference(&before, &after);
            let verb = if through.starts_with("get") { "get" } else { "post" };
            ctx.check(diff.is_empty(), &format!("readonly-changed-{verb}-{kind}"), || format!("{through} (read {read}, write {write}) of {text:?} answered {} {:?} and changed: {diff:#?}", ans.status, ans.text()));
            if !diff.is_empty() { s = fresh().await; continue }
            // would it have changed something?
            let effective = {
                let w = routes(&s.ctx, HttpFrontend { read_access: access("any"), write_access: access("any"), ..Default::default() });
                let a = post(&w, "/q", &text, &[]).await;
                let later = state(&s).await;
                let d = !difference(&after, &later).is_empty();
                let _ = a;
                d
            };
            if effective {
                s = fresh().await;
                ctx.seen("effective_kinds", &(kind, wrapper));
                ctx.check((400..500).contains(&ans.status), &format!("readonly-not-refused-{verb}-{kind}"), || format!("{through} of {text:?} answered {} {:?}, although it writes when a writer sends it", ans.status, ans.text()));
            }
            ctx.eval(&(kind, wrapper, *through), effective);
            ctx.count("requests", 1);
            ctx.count(if effective { "effective_for_a_writer" } else { "without_effect_anyway" }, 1);
            ctx.sample(serde_json::json!({"text": text, "through": through, "status": ans.status, "effective_for_writer": effective}));
        }
        ctx.check(ctx.seen_count("effective_kinds") >= 20, "harness-few-effective", || "hardly any of the statements had an effect for a writer".into());
    });
}
