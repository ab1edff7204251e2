//! C33: settings of object stores
use super::mock::{Answer, Mock, Req};
use super::s3mock::{self, decode, signed_with, signer, Objects, Signed};
use crate::sf::{self, Sf};
use futures::FutureExt;
use object_store::path::Path;
use object_store::ObjectStore;
use object_store_factory::aws::{map_options_into_amazon_s3_config_keys, S3Config};
use object_store_factory::google::{map_options_into_google_config_keys, GCSConfig};
use object_store_factory::local::LocalConfig;
use object_store_factory::*;
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

type Map = HashMap<String, String>;

/// a panic or an error: either way it was refused
async fn tried<T, E: std::fmt::Display>(f: impl std::future::Future<Output = Result<T, E>>) -> Result<T, String> {
    match std::panic::AssertUnwindSafe(f).catch_unwind().await { Ok(Ok(t)) => Ok(t), Ok(Err(e)) => Err(e.to_string()), Err(p) => Err(format!("panic: {}", sfv::panic_text(p))) }
}
fn maybe(r: &mut StdRng, p: f64, xs: &[&str]) -> Option<String> { chance(r, p).then(|| pick(r, xs).to_string()) }

const KEYS: &[&str] = &["a", "d/e", "with space", "p%25", "é", "x+y"];

/// what a request for one object showed about the store that sent it
#[derive(Debug, PartialEq, Clone)]
struct Seen { path: String, signed: Option<Signed>, secret: bool }

fn seen(log: &[Req], secret: Option<&str>) -> Vec<Seen> {
    log.iter().map(|q| { let s = signer(q); Seen { path: decode(q.target.split('?').next().unwrap()), secret: match (&s, secret) { (Some(_), Some(k)) => signed_with(q, k), (s, _) => s.is_none() }, signed: s } }).collect()
}

fn s3_config(r: &mut StdRng, m: &Mock) -> S3Config {
    let keys = chance(r, 0.7);
    S3Config {
        region: maybe(r, 0.7, &["eu-west-1", "us-east-2", "moon"]),
        access_key_id: keys.then(|| pick(r, &["AK1", "AKIAXYZ"]).to_string()),
        secret_access_key: keys.then(|| pick(r, &["s3cr3t", "a/b+c=="]).to_string()),
        session_token: maybe(r, 0.4, &["tok", "t/o+k=="]),
        endpoint: Some(format!("http://{}", m.host())),
        bucket: pick(r, &["bkt", "my-bucket", "b.c"]).to_string(),
        prefix: maybe(r, 0.5, &["p", "P/q.X", "pré fix"]),
        allow_http: chance(r, 0.85),
        skip_signature: !keys || chance(r, 0.5),
    }
}
fn s3_map(c: &S3Config, pre: &str, r: &mut StdRng) -> Map {
    let mut m = Map::new();
    for (k, v) in [("region", &c.region), ("access_key_id", &c.access_key_id), ("secret_access_key", &c.secret_access_key), ("session_token", &c.session_token), ("endpoint", &c.endpoint)] {
        if let Some(v) = v { m.insert(format!("{pre}{k}"), v.clone()); }
    }
    // the flags are on unless they are turned off
    if !c.allow_http || chance(r, 0.5) { m.insert(format!("{pre}allow_http"), c.allow_http.to_string()); }
    if !c.skip_signature || chance(r, 0.5) { m.insert(format!("{pre}skip_signature"), c.skip_signature.to_string()); }
    m
}

async fn s3_direct(ctx: &Ctx, r: &mut StdRng, m: &Mock) {
    let c = s3_config(r, m);
    let source = *pick(r, &["map", "options", "json", "toml", "json text"]);
    let got = match source {
        "map" => { let mut map = s3_map(&c, "", r); map.insert("bucket".into(), c.bucket.clone()); if let Some(p) = &c.prefix { map.insert("prefix".into(), p.clone()); } S3Config::from_hashmap(&map).map_err(|e| e.to_string()) }
        "options" => {
            let mut map = s3_map(&c, "format.", r);
            map.insert("format.other".into(), "x".into());
            let g = S3Config::from_bucket_and_options(c.bucket.clone(), &mut map).map(|g| S3Config { prefix: c.prefix.clone(), ..g });
            ctx.check(map.len() == 1, "s3/options", || format!("left over: {map:?}"));
            g.map_err(|e| e.to_string())
        }
        _ => {
            let mut v: BTreeMap<String, serde_json::Value> = s3_map(&c, "", r).into_iter().map(|(k, v)| (k.clone(), if (k == "allow_http" || k == "skip_signature") && source != "json text" { (v == "true").into() } else { v.into() })).collect();
            v.insert("bucket".into(), c.bucket.clone().into());
            if let Some(p) = &c.prefix { v.insert("prefix".into(), p.clone().into()); }
            if source == "toml" { v.insert("type".into(), "s3".into()); match toml::from_str::<ObjectStoreConfig>(&toml::to_string(&v).unwrap()) { Ok(ObjectStoreConfig::AmazonS3(c)) => Ok(c), x => Err(format!("{x:?}")) } }
            else { match ObjectStoreConfig::build_from_json(&url::Url::parse("s3://whatever").unwrap(), &serde_json::to_string(&v).unwrap()) { Ok(ObjectStoreConfig::AmazonS3(c)) => Ok(c), x => Err(format!("{x:?}")) } }
        }
    };
    ctx.eval(&("s3", source, c.region.is_some(), c.access_key_id.is_some(), c.session_token.is_some(), c.prefix.is_some(), c.allow_http, c.skip_signature), true);
    if !ctx.check(got.as_ref() == Ok(&c), "s3/config", || format!("{source}: {got:?}, expected {c:?}")) { return }
    ctx.check(c.get_base_url() == c.prefix.as_ref().map(|p| Path::from(p.as_str())) && c.bucket_to_url() == format!("s3://{}", c.bucket) && c.get_allow_http() == c.allow_http, "s3/base", || format!("{c:?}"));
    let key = Path::from(*pick(r, KEYS));
    let want = |prefix: Option<String>| Seen {
        path: format!("/{}/{}{}", c.bucket, prefix.map(|p| p + "/").unwrap_or_default(), decode(&decode(&key.to_string()).replace('%', "%25"))),
        signed: c.access_key_id.as_ref().map(|k| Signed { key: k.clone(), region: c.region.clone().unwrap_or("us-east-1".into()), token: c.session_token.clone() }),
        secret: true,
    };
    m.taken();
    // the store itself, and the one that is built from the location it would be announced as
    let cfg = ObjectStoreConfig::AmazonS3(c.clone());
    let direct = match cfg.build_object_store() { Ok(s) => s, Err(e) => return ctx.violation("s3/build", format!("{c:?}: {e}")) };
    let info = match cfg.build_storage_location_info() { Ok(i) => i, Err(e) => return ctx.violation("s3/info", format!("{c:?}: {e}")) };
    let back = match tried(build_object_store_from_opts(&url::Url::parse(&info.url).unwrap(), info.options.clone())).await { Ok(s) => Arc::<dyn ObjectStore>::from(s), Err(e) => return ctx.violation("s3/back", format!("{c:?} as {} {:?}: {e}", info.url, info.options)) };
    for (w, s) in [("direct", direct), ("announced", info.object_store.clone()), ("back", back)] {
        let res = s.get(&key).await;
        let log = m.taken();
        ctx.count("requests_seen", log.len() as u64);
        if !c.allow_http {
            ctx.check(log.is_empty() && matches!(&res, Err(e) if !matches!(e, object_store::Error::NotFound { .. })), "s3/http", || format!("{w} {c:?}: sent {:?}", seen(&log, None)));
            continue;
        }
        let got = seen(&log, c.secret_access_key.as_deref());
        let path = format!("/{}/{key}", c.bucket);
        let want = Seen { path, ..want(None) };
        ctx.check(got == [want.clone()] && matches!(res, Err(object_store::Error::NotFound { .. })), "s3/request", || format!("{w} {c:?}, key {key}: {got:?}, expected {want:?}; {:?}", res.as_ref().err()));
    }
}

/// options, with the environment of a child process behind them
async fn s3_options(ctx: &Ctx, r: &mut StdRng, m: &Mock, env: bool) {
    // setting, its names as an option, its name in the environment, two values
    let host = format!("http://{}", m.host());
    let table: Vec<(&str, &[&str], &str, [&str; 2])> = vec![
        ("region", &["aws_region", "region"], "AWS_REGION", ["eu-west-1", "mars"]),
        ("key", &["aws_access_key_id", "access_key_id"], "AWS_ACCESS_KEY_ID", ["AK1", "AK2"]),
        ("secret", &["aws_secret_access_key", "secret_access_key"], "AWS_SECRET_ACCESS_KEY", ["sec1", "sec2"]),
        ("token", &["aws_session_token", "session_token", "aws_token", "token"], "AWS_SESSION_TOKEN", ["tok1", "tok2"]),
        ("endpoint", &["aws_endpoint", "endpoint", "aws_endpoint_url", "endpoint_url"], "AWS_ENDPOINT", [&host, "http://127.0.0.1:9"]),
        ("allow_http", &["aws_allow_http", "allow_http"], "AWS_ALLOW_HTTP", ["true", "false"]),
        ("skip", &["aws_skip_signature", "skip_signature"], "AWS_SKIP_SIGNATURE", ["true", "false"]),
    ];
    let (mut opts, mut vars, mut eff): (Map, BTreeMap<String, String>, BTreeMap<&str, String>) = Default::default();
    for (k, names, var, vals) in &table {
        let (in_opts, in_env) = match (*k, env) {
            // without an endpoint there is no telling who would be asked
            ("endpoint", true) => *pick(r, &[(true, false), (true, true), (false, true)]),
            ("endpoint" | "key" | "secret" | "allow_http", false) => (true, false),
            ("key" | "secret", true) => *pick(r, &[(true, false), (true, true), (false, true)]),
            ("allow_http", true) => *pick(r, &[(true, false), (true, true), (false, true)]),
            (_, e) => (chance(r, 0.5), e && chance(r, 0.5)),
        };
        let mut v = *vals;
        if !matches!(*k, "endpoint") && !(*k == "allow_http" && !in_opts) && chance(r, 0.3) { v.swap(0, 1) }
        if in_opts { opts.insert(pick(r, names).to_string(), v[0].into()); eff.insert(k, v[0].into()); }
        if in_env { let x = if in_opts { v[1] } else { v[0] }; vars.insert(var.to_string(), x.into()); eff.entry(k).or_insert(x.into()); }
    }
    let bucket = *pick(r, &["bkt", "my-bucket"]);
    let dir = *pick(r, &["", "/", "/p", "/p/q/", "/with%20space", "/%C3%A9/x%2By", "/p%2525"]);
    let url = format!("{}://{bucket}{dir}", pick(r, &["s3", "s3a"]));
    let key = *pick(r, KEYS);
    let spoiled = if chance(r, 0.12) { let (k, v) = *pick(r, &[("no_such_option", "1"), ("format.region", "x"), ("skip_signature", "maybe"), ("aws_conditional_put", "sometimes"), ("google_bucket", "x")]);
        if k == "skip_signature" { opts.remove("aws_skip_signature"); } opts.insert(k.into(), v.into()); true } else { false };
    ctx.eval(&("s3 options", dir, env, spoiled, opts.keys().collect::<std::collections::BTreeSet<_>>(), vars.keys().collect::<Vec<_>>()), true);
    m.taken();
    let spec = serde_json::json!({ "url": url, "options": opts, "key": key });
    let res = if env { child(&spec, &vars) } else { probe(&spec).await };
    let log = m.taken();
    ctx.count("requests_seen", log.len() as u64);
    let skip = eff.get("skip").map(|s| s == "true").unwrap_or(false);
    let got = seen(&log, eff.get("secret").map(|s| s.as_str()).filter(|_| !skip));
    let what = || format!("{url} {opts:?}, environment {vars:?}, object {key}: {res}; {got:?}");
    if res.starts_with("panic") || res.starts_with("child") { return ctx.violation("s3 options/panic", what()) }
    if spoiled { ctx.check(res.starts_with("refused"), "s3 options/spoiled", what); return }
    if eff["allow_http"] != "true" { ctx.check(log.is_empty() && res.starts_with("error"), "s3 options/http", what); return }
    let pre = decode(dir);
    let pre = pre.trim_matches('/');
    let want = Seen { path: format!("/{bucket}/{}{key}", if pre.is_empty() { String::new() } else { format!("{pre}/") }), secret: true,
        signed: (!skip).then(|| Signed { key: eff["key"].clone(), region: eff.get("region").cloned().unwrap_or("us-east-1".into()), token: eff.get("token").cloned() }) };
    ctx.check(got == [want.clone()] && res.starts_with("missing"), "s3 options/request", || format!("{}, expected {want:?}", what()));
}

/// build a store from a URL and options and ask it for an object
async fn probe(spec: &serde_json::Value) -> String {
    let url = url::Url::parse(spec["url"].as_str().unwrap()).unwrap();
    let opts: Map = serde_json::from_value(spec["options"].clone()).unwrap();
    let s = match tried(build_object_store_from_opts(&url, opts)).await { Ok(s) => s, Err(e) if e.starts_with("panic") => return e, Err(e) => return format!("refused: {e}") };
    let Some(key) = spec["key"].as_str() else { return "built".into() };
    match std::panic::AssertUnwindSafe(s.get(&Path::parse(key).unwrap())).catch_unwind().await {
        Ok(Ok(_)) => "there".into(),
        Ok(Err(object_store::Error::NotFound { .. })) => "missing".into(),
        Ok(Err(e)) => format!("error: {e}"),
        Err(p) => format!("panic: {}", sfv::panic_text(p)),
    }
}
fn child(spec: &serde_json::Value, vars: &BTreeMap<String, String>) -> String {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["probe", &spec.to_string()]).env_clear().envs(vars).output().expect("running a probe");
    let t = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if out.status.success() { t } else { format!("child: {} {}", t, sfv::trunc(&String::from_utf8_lossy(&out.stderr), 400)) }
}
pub fn probe_main(args: &[String]) -> i32 {
    let spec: serde_json::Value = serde_json::from_str(&args[2]).unwrap();
    println!("{}", super::rt(2).block_on(probe(&spec)));
    0
}

async fn gcs(ctx: &Ctx, r: &mut StdRng, m: &Mock, dir: &std::path::Path) {
    let text = |n: &str| serde_json::json!({ "gcs_base_url": format!("http://{}/{n}", m.host()), "disable_oauth": true, "client_email": "", "private_key": "", "private_key_id": "" }).to_string();
    let file = |n: &str| { let p = dir.join(format!("{n}.json")); std::fs::write(&p, text(n)).unwrap(); p.display().to_string() };
    let c = GCSConfig { bucket: pick(r, &["bkt", "my-bucket"]).to_string(), prefix: maybe(r, 0.5, &["p", "p/q", "Pre/Fix.x", "pré fix"]), google_application_credentials: Some(file("configured")) };
    let source = *pick(r, &["map", "options", "json", "toml"]);
    let bare = chance(r, 0.2);
    let c = if bare { GCSConfig { google_application_credentials: None, ..c } } else { c };
    let mut map = Map::from([("bucket".to_string(), c.bucket.clone())]);
    if let Some(p) = &c.prefix { map.insert("prefix".into(), p.clone()); }
    if let Some(p) = &c.google_application_credentials { map.insert("google_application_credentials".into(), p.clone()); }
    let got = match source {
        "map" => GCSConfig::from_hashmap(&map).map_err(|e| e.to_string()),
        "options" => { let mut o: Map = map.iter().filter(|(k, _)| k.starts_with("google")).map(|(k, v)| (format!("format.{k}"), v.clone())).collect(); GCSConfig::from_bucket_and_options(c.bucket.clone(), &mut o).map(|g| GCSConfig { prefix: c.prefix.clone(), ..g }).map_err(|e| e.to_string()) }
        "toml" => { let mut m: BTreeMap<_, _> = map.clone().into_iter().collect(); m.insert("type".into(), "gcs".into()); match toml::from_str(&toml::to_string(&m).unwrap()) { Ok(ObjectStoreConfig::GoogleCloudStorage(c)) => Ok(c), x => Err(format!("{x:?}")) } }
        _ => match ObjectStoreConfig::build_from_json(&url::Url::parse("gs://x").unwrap(), &serde_json::to_string(&map).unwrap()) { Ok(ObjectStoreConfig::GoogleCloudStorage(c)) => Ok(c), x => Err(format!("{x:?}")) },
    };
    ctx.eval(&("gcs", source, bare, c.prefix.is_some()), true);
    if !ctx.check(got.as_ref() == Ok(&c), "gcs/config", || format!("{source}: {got:?}, expected {c:?}")) { return }
    ctx.check(c.get_base_url() == c.prefix.as_ref().map(|p| Path::from(p.as_str())) && c.bucket_to_url() == format!("gs://{}", c.bucket), "gcs/base", || format!("{c:?}"));
    let key = *pick(r, KEYS);
    if !bare {
        m.taken();
        let res = tried(async { ObjectStoreConfig::GoogleCloudStorage(c.clone()).build_object_store()?.get(&Path::parse(key).unwrap()).await.map(|_| ()) }).await;
        let got = seen(&m.taken(), None);
        ctx.check(got.len() == 1 && got[0].path == format!("/configured/{}/{key}", c.bucket), "gcs/request", || format!("{c:?} {key}: {got:?} {res:?}"));
    }
    // what it is announced as can be opened (the credentials of this test can't be used that way, so without)
    if bare {
        let info = ObjectStoreConfig::GoogleCloudStorage(c.clone()).build_storage_location_info();
        match info {
            Ok(i) => { let b = tried(build_object_store_from_opts(&url::Url::parse(&i.url).unwrap(), i.options.clone())).await; ctx.check(b.is_ok(), "gcs/back", || format!("{c:?} as {} {:?}: {}", i.url, i.options, b.as_ref().err().unwrap())); }
            Err(e) => ctx.violation("gcs/info", format!("{c:?}: {e}")),
        }
    }
    // options and environment: the first of these that is there
    let kind = r.gen_range(0..4);
    let mut opts = Map::new();
    match kind { 0 => { opts.insert(pick(r, &["google_service_account", "service_account", "google_service_account_path", "service_account_path"]).to_string(), file("option")); } 1 => { opts.insert(pick(r, &["google_service_account_key", "service_account_key"]).to_string(), text("optkey")); } _ => {} }
    let mut vars = BTreeMap::new();
    if kind == 2 || chance(r, 0.5) { vars.insert("GOOGLE_SERVICE_ACCOUNT".to_string(), file("env")); }
    if kind == 3 || chance(r, 0.5) { vars.insert("GOOGLE_SERVICE_ACCOUNT_KEY".to_string(), text("envkey")); }
    // the bucket is the one in the URL, and what isn't meant for Google's stores changes nothing
    if chance(r, 0.3) { vars.insert("GOOGLE_BUCKET".to_string(), "elsewhere".to_string()); }
    if chance(r, 0.2) { vars.insert("MY_GOOGLE_SERVICE_ACCOUNT".to_string(), file("wrong")); }
    let want = match kind { 0 => "option", 1 => "optkey", _ if vars.contains_key("GOOGLE_SERVICE_ACCOUNT") => "env", _ => "envkey" };
    let sub = *pick(r, &["", "/p", "/with%20space", "/p/q/"]);
    let spoiled = chance(r, 0.1);
    if spoiled { opts.insert(pick(r, &["prefix", "region", "no_such_option"]).to_string(), "x".into()); }
    ctx.eval(&("gcs options", kind, sub, spoiled, vars.len()), true);
    m.taken();
    let res = child(&serde_json::json!({ "url": format!("gs://{}{sub}", c.bucket), "options": opts, "key": key }), &vars);
    let log = m.taken();
    let got = seen(&log, None);
    ctx.count("requests_seen", log.len() as u64);
    let what = || format!("gs://{}{sub} {opts:?}, environment {vars:?}, object {key}: {res}; {got:?}", c.bucket);
    if spoiled { ctx.check(res.starts_with("refused"), "gcs options/spoiled", what); return }
    let pre = decode(sub);
    let path = format!("/{want}/{}{}/{key}", c.bucket, pre.trim_end_matches('/'));
    ctx.check(got.len() == 1 && got[0].path == path && res.starts_with("missing"), "gcs options/request", || format!("{}; expected {path}", what()));
}

/// default credentials, of which only the file that's asked for can be told here
fn gcs_default(ctx: &Ctx, r: &mut StdRng) {
    let (in_opts, in_env) = *pick(r, &[(true, false), (false, true), (true, true)]);
    let mut opts = Map::new();
    let mut vars = BTreeMap::new();
    let n = r.gen_range(0..1000);
    if in_opts { opts.insert("google_application_credentials".to_string(), format!("/no such/option {n}")); }
    if in_env { vars.insert("GOOGLE_APPLICATION_CREDENTIALS".to_string(), format!("/no such/environment {n}")); }
    let want = if in_opts { format!("/no such/option {n}") } else { format!("/no such/environment {n}") };
    ctx.eval(&("gcs default", in_opts, in_env, n), true);
    let res = child(&serde_json::json!({ "url": "gs://some-bucket", "options": opts, "key": "k" }), &vars);
    ctx.check(res.contains(&want), "gcs default/file", || format!("{opts:?}, environment {vars:?}: {res}, expected to miss {want}"));
}

async fn refused(ctx: &Ctx, dir: &std::path::Path) {
    let url = |s: &str| url::Url::parse(s).unwrap();
    let none = Map::new();
    let some = Map::from([("region".to_string(), "x".to_string())]);
    let s3 = S3Config { bucket: "b".into(), skip_signature: false, ..Default::default() };
    let mut cases: Vec<(&str, Result<(), String>)> = vec![];
    for m in [&none, &some] {
        cases.push(("an S3 map without a bucket", tried(async { S3Config::from_hashmap(m).map(|_| ()) }).await));
        cases.push(("a GCS map without a bucket", tried(async { GCSConfig::from_hashmap(m).map(|_| ()) }).await));
        cases.push(("a local map without a directory", tried(async { LocalConfig::from_hashmap(m).map(|_| ()) }).await));
    }
    cases.push(("no keys, but signatures", tried(async { s3.build_amazon_s3().map(|_| ()) }).await));
    cases.push(("a directory that isn't there", tried(async { LocalConfig { data_dir: dir.join("no such").display().to_string(), disable_hardlinks: false }.build_local_storage().map(|_| ()) }).await));
    cases.push(("credentials that aren't there", tried(async { GCSConfig { bucket: "b".into(), prefix: None, google_application_credentials: Some(dir.join("no such").display().to_string()) }.build_google_cloud_storage().map(|_| ()) }).await));
    for (u, j) in [("s3://b", "{}"), ("s3://b", "{\"bucket\": 5}"), ("s3://b", "nonsense"), ("gs://b", "{}"), ("gs://b", "["), ("file:///x", "{}"), ("file:///x", "{\"data_dir\": null}"), ("https://h/x", "{}"), ("ftp://h/x", "{}"), ("az://a/b", "{}")] {
        cases.push(("unusable JSON", tried(async { ObjectStoreConfig::build_from_json(&url(u), j).map(|_| ()) }).await));
    }
    for u in ["https://h/x", "ftp://h/x", "az://a/b", "s3:///x", "gs:///x", "file:///no/such/directory/at/all"] {
        cases.push(("an unusable URL", tried(async { build_object_store_from_opts(&url(u), none.clone()).await.map(|_| ()) }).await));
    }
    for (w, res) in cases {
        ctx.eval(&("refused", w), true);
        ctx.check(res.is_err(), "refused", || format!("{w} was accepted"));
        // the only panics are those of maps without a bucket, which the project's tests ask for
        if let Err(e) = res { ctx.check(!e.starts_with("panic") || w.contains("without a bucket"), "refused/panic", || format!("{w}: {e}")); }
    }
    for o in [Map::from([("nope".into(), "1".into())]), Map::from([("region".into(), "1".into()), ("format.x".into(), "1".into())])] {
        ctx.check(map_options_into_amazon_s3_config_keys(o.clone()).is_err() && map_options_into_google_config_keys(o.clone()).is_err(), "refused/keys", || format!("{o:?}"));
    }
    // a region in the environment is as good as one in the options
    for var in ["AWS_REGION", "AWS_DEFAULT_REGION"] {
        let res = child(&serde_json::json!({ "url": "s3://some-bucket/x", "options": {} }), &BTreeMap::from([(var.to_string(), "eu-west-1".to_string()), ("AWS_SKIP_SIGNATURE".into(), "true".into())]));
        ctx.check(res == "built", "s3 options/region", || format!("{var}: {res}"));
    }
}

fn local(ctx: &Ctx, r: &mut StdRng, dir: &std::path::Path) {
    let c = LocalConfig { data_dir: dir.join(pick(r, &["d", "with space", "é"])).display().to_string(), disable_hardlinks: chance(r, 0.5) };
    let back = LocalConfig::from_hashmap(&ObjectStoreConfig::Local(c.clone()).to_hashmap());
    ctx.eval(&("local", c.disable_hardlinks, c.data_dir.chars().last()), true);
    ctx.check(back.as_ref().ok() == Some(&c), "local/back", || format!("{back:?}, expected {c:?}"));
    // copies are made by linking unless it's said not to
    let left = LocalConfig::from_hashmap(&Map::from([("data_dir".to_string(), c.data_dir.clone())]));
    ctx.check(left.as_ref().is_ok_and(|l| l.data_dir == c.data_dir && !l.disable_hardlinks), "local/defaults", || format!("{left:?}"));
    let no = pick(r, &["false", "0", "off", "no"]);
    let off = LocalConfig::from_hashmap(&Map::from([("data_dir".to_string(), c.data_dir.clone()), ("disable_hardlinks".to_string(), no.to_string())]));
    ctx.check(off.as_ref().is_ok_and(|l| !l.disable_hardlinks), "local/off", || format!("{no}: {off:?}"));
    let left = ObjectStoreConfig::build_from_json(&url::Url::parse("file:///x").unwrap(), &serde_json::json!({ "data_dir": c.data_dir }).to_string());
    ctx.check(matches!(&left, Ok(ObjectStoreConfig::Local(x)) if x.data_dir == c.data_dir && !x.disable_hardlinks), "local/defaults-json", || format!("{left:?}"));
    let j = serde_json::json!({ "data_dir": c.data_dir, "disable_hardlinks": c.disable_hardlinks }).to_string();
    let g = ObjectStoreConfig::build_from_json(&url::Url::parse("file:///x").unwrap(), &j);
    ctx.check(matches!(&g, Ok(ObjectStoreConfig::Local(x)) if *x == c), "local/json", || format!("{g:?}"));
}

/// options for the other file layer
fn file_io(ctx: &Ctx, r: &mut StdRng) {
    let mut opts = Map::new();
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let mut any = false;
    for (names, to, vals) in [
        (&["aws_region", "region"] as &[&str], "s3.region", &["eu-west-1", "x"] as &[&str]), (&["aws_endpoint", "endpoint_url"], "s3.endpoint", &["http://h:1"]),
        (&["aws_access_key_id", "access_key_id"], "s3.access-key-id", &["AK"]), (&["aws_secret_access_key", "secret_access_key"], "s3.secret-access-key", &["SK"]),
        (&["aws_skip_signature", "skip_signature"], "skip", &["true", "false", "TRUE", "1", "0"]), (&["allow_http", "aws_allow_http"], "allow_http", &["true"]), (&["something.else"], "something.else", &["y"]),
    ] {
        if !chance(r, 0.5) { continue }
        let (n, v) = (*pick(r, names), pick(r, vals).to_string());
        opts.insert(n.to_string(), v.clone());
        any |= n != "something.else";
        match to {
            "skip" if ["true", "1"].contains(&v.to_lowercase().as_str()) => { want.insert("s3.allow-anonymous".into(), v.clone()); want.insert("s3.disable-ec2-metadata".into(), v); }
            "skip" => { want.insert("aws_skip_signature".into(), v); }
            t => { want.insert(t.into(), v); }
        }
    }
    if any { want.entry("s3.region".into()).or_insert("dummy-region".into()); want.insert("s3.disable-config-load".into(), "true".into()); }
    let got: BTreeMap<_, _> = object_store_opts_to_file_io_props(&opts).into_iter().collect();
    ctx.eval(&("file io", opts.keys().collect::<std::collections::BTreeSet<_>>()), true);
    ctx.check(got == want, "file_io", || format!("{opts:?} became {got:?}, expected {want:?}"));
}

/// the whole of Seafowl on a bucket, and external tables in others
async fn server(ctx: &Ctx, r: &mut StdRng, m: &Mock, dir: &std::path::Path) {
    let objects: Objects = Default::default();
    m.serve(s3mock::handler(objects.clone()));
    m.taken();
    let c = S3Config { allow_http: true, prefix: maybe(r, 0.7, &["p", "p/q", "some/deep/one"]), ..s3_config(r, m) };
    let mut t = BTreeMap::from([("type".to_string(), toml::Value::from("s3")), ("bucket".into(), c.bucket.clone().into()), ("endpoint".into(), c.endpoint.clone().unwrap().into()), ("skip_signature".into(), c.skip_signature.into())]);
    for (k, v) in [("region", &c.region), ("access_key_id", &c.access_key_id), ("secret_access_key", &c.secret_access_key), ("session_token", &c.session_token), ("prefix", &c.prefix)] { if let Some(v) = v { t.insert(k.into(), v.clone().into()); } }
    let text = format!("[object_store]\n{}\n[catalog]\ntype = \"sqlite\"\ndsn = \"{}/c{:x}.sqlite\"\n{}", toml::to_string(&t).unwrap(), dir.display(), r.gen::<u64>(), if chance(r, 0.5) { "[misc.object_store_cache]\ncapacity = 100000\nmin_fetch_size = 64\nttl = 10\n" } else { "" });
    let cfg = seafowl::config::schema::load_config_from_string(&text, false, Some(HashMap::new())).unwrap_or_else(|e| panic!("{e}\n{text}"));
    let sf = match tried(async { seafowl::config::context::build_context(cfg).await.map_err(|e| e.to_string()) }).await { Ok(c) => Arc::new(c), Err(e) => return ctx.violation("server/start", format!("{text}: {e}")) };
    let n = r.gen_range(1..200);
    let body = (0..n).fold("a,b\n".to_string(), |s, i| s + &format!("{i},v{i}\n")).into_bytes();
    let name = *pick(r, &["f.csv", "dir/f.csv", "dir/with space.csv"]);
    let ext = *pick(r, &["ext-bucket", "other"]);
    let out = tried(async {
        sf::sql(&sf, "CREATE TABLE t (i BIGINT, s TEXT)").await?;
        for k in 0..3 { sf::sql(&sf, &format!("INSERT INTO t VALUES ({k}, 'v{k}')")).await?; }
        sf::sql(&sf, "DELETE FROM t WHERE i = 1").await?;
        let rows = sf::rows(&sf::sql(&sf, "SELECT * FROM t ORDER BY i").await?);
        Ok::<_, datafusion::error::DataFusionError>(rows)
    }).await;
    let log = m.taken();
    let got = seen(&log, c.secret_access_key.as_deref());
    ctx.count("requests_seen", log.len() as u64);
    ctx.eval(&("server", c.prefix.is_some(), c.access_key_id.is_some(), c.region.is_some()), true);
    ctx.check(out == Ok(vec![vec!["0".to_string(), "v0".into()], vec!["2".into(), "v2".into()]]), "server/rows", || format!("{text}: {out:?}"));
    let root = match &c.prefix { Some(p) => format!("{}/{p}/", c.bucket), None => format!("{}/", c.bucket) };
    let signed = c.access_key_id.as_ref().map(|k| Signed { key: k.clone(), region: c.region.clone().unwrap_or("us-east-1".into()), token: c.session_token.clone() });
    for k in objects.lock().unwrap().keys() { ctx.check(k.starts_with(&root), "server/place", || format!("{k} lies outside {root}")); }
    for s in &got { ctx.check(s.path.trim_start_matches('/').starts_with(c.bucket.as_str()) && s.signed == signed && s.secret, "server/request", || format!("{text}: {s:?}, expected {signed:?}")); }
    // external tables: the server's own settings without options, only the options otherwise
    let with = chance(r, 0.6);
    objects.lock().unwrap().insert(format!("{ext}/{name}"), body);
    let e = if with { S3Config { allow_http: true, ..s3_config(r, m) } } else { c.clone() };
    let opts = if with { s3_map(&e, "format.", r).into_iter().map(|(k, v)| format!("'{k}' '{v}'")).collect::<Vec<_>>().join(", ") } else { String::new() };
    let ddl = format!("CREATE EXTERNAL TABLE e STORED AS CSV {}LOCATION 's3://{ext}/{}'", if with { format!("OPTIONS ({opts}) ") } else { String::new() }, name.replace(' ', "%20"));
    let res = tried(async { sf::sql(&sf, &ddl).await?; Ok::<_, datafusion::error::DataFusionError>(sf::rows(&sf::sql(&sf, "SELECT count(*) FROM staging.e").await?)) }).await;
    let log = m.taken();
    let got = seen(&log, e.secret_access_key.as_deref());
    let signed = e.access_key_id.as_ref().map(|k| Signed { key: k.clone(), region: e.region.clone().unwrap_or("us-east-1".into()), token: e.session_token.clone() });
    ctx.eval(&("external", with, e.access_key_id.is_some(), name), true);
    let count = res.as_ref().ok().and_then(|r| r.first().and_then(|r| r[0].parse::<i64>().ok()));
    ctx.check(count == Some(n) || count == Some(n + 1), "external/rows", || format!("{ddl}; internal {text}: {res:?}, expected {n}"));
    for s in &got { ctx.check(s.path.starts_with(&format!("/{ext}")) && s.signed == signed && s.secret, "external/request", || format!("{ddl}; internal {text}: {s:?}, expected {signed:?}")); }
    ctx.check(!got.is_empty(), "external/request", || format!("{ddl}: no requests"));
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("one evaluation = one configuration from one source, compared field by field and by the requests (address, bucket, path, signer, region, token, verified signature) that its store sends to a server; distinct by (source, settings present)");
    sfv::quiet_panics();
    super::rt(4).block_on(async {
        let m = Mock::start(Arc::new(|_: &Req| Answer::new(404, b"").bytes())).await;
        let none = Arc::new(|_: &Req| Answer::new(404, b"").bytes());
        let dir = sf::scratch();
        let mut r = ctx.rng("settings");
        refused(ctx, &dir).await;
        for _ in 0..ctx.n(110, 20_000) { if ctx.used(0.3) { break } s3_direct(ctx, &mut r, &m).await; local(ctx, &mut r, &dir); file_io(ctx, &mut r); s3_options(ctx, &mut r, &m, false).await; }
        for _ in 0..ctx.n(60, 6000) { if ctx.used(0.6) { break } s3_options(ctx, &mut r, &m, true).await; }
        for _ in 0..ctx.n(40, 3000) { if ctx.used(0.75) { break } gcs(ctx, &mut r, &m, &dir).await; }
        for _ in 0..6 { gcs_default(ctx, &mut r); }
        for _ in 0..ctx.n(8, 600) { if ctx.out_of_time() { break } server(ctx, &mut r, &m, &dir).await; m.serve(none.clone()); }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
