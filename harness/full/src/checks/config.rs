//! C41: configuration text and environment
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use object_store_factory::{aws::S3Config, google::GCSConfig, local::LocalConfig, ObjectStoreConfig};
use seafowl::config::schema::*;
use sqlx::sqlite::SqliteJournalMode;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
enum V { S(String), B(bool), N(u64) }
impl V {
    fn toml(&self) -> String { match self { V::S(s) => format!("{}", toml::Value::String(s.clone())), V::B(b) => b.to_string(), V::N(n) => n.to_string() } }
    fn env(&self) -> String { match self { V::S(s) => s.clone(), V::B(b) => b.to_string(), V::N(n) => n.to_string() } }
    fn s(&self) -> String { match self { V::S(s) => s.clone(), _ => unreachable!() } }
    fn b(&self) -> bool { match self { V::B(b) => *b, _ => unreachable!() } }
    fn n(&self) -> u64 { match self { V::N(n) => *n, _ => unreachable!() } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K { S, B, U16, U32, U64, Access, Journal, StoreType, CatalogType, Dsn }

const LEAVES: &[(&str, &str, K)] = &[
    ("object_store", "type", K::StoreType),
    ("object_store", "data_dir", K::S),
    ("object_store", "disable_hardlinks", K::B),
    ("object_store", "region", K::S),
    ("object_store", "access_key_id", K::S),
    ("object_store", "secret_access_key", K::S),
    ("object_store", "session_token", K::S),
    ("object_store", "endpoint", K::S),
    ("object_store", "bucket", K::S),
    ("object_store", "prefix", K::S),
    ("object_store", "allow_http", K::B),
    ("object_store", "skip_signature", K::B),
    ("object_store", "google_application_credentials", K::S),
    ("catalog", "type", K::CatalogType),
    ("catalog", "dsn", K::Dsn),
    ("catalog", "journal_mode", K::Journal),
    ("catalog", "read_only", K::B),
    ("frontend.flight", "bind_host", K::S),
    ("frontend.flight", "bind_port", K::U16),
    ("frontend.http", "bind_host", K::S),
    ("frontend.http", "bind_port", K::U16),
    ("frontend.http", "read_access", K::Access),
    ("frontend.http", "write_access", K::Access),
    ("frontend.http", "upload_data_max_length", K::U64),
    ("frontend.http", "cache_control", K::S),
    ("runtime", "max_memory", K::U64),
    ("runtime", "temp_dir", K::S),
    ("misc", "max_partition_size", K::U32),
    ("misc", "gc_interval", K::U16),
    ("misc", "ssl_cert_file", K::S),
    ("misc.metrics", "host", K::S),
    ("misc.metrics", "port", K::U16),
    ("misc.object_store_cache", "capacity", K::U64),
    ("misc.object_store_cache", "min_fetch_size", K::U64),
    ("misc.object_store_cache", "ttl", K::U64),
    ("misc.sync_conf", "max_in_memory_bytes", K::U64),
    ("misc.sync_conf", "max_replication_lag_s", K::U64),
    ("misc.sync_conf", "max_syncs_per_url", K::U64),
    ("misc.sync_conf", "write_lock_timeout_s", K::U64),
    ("misc.sync_conf", "flush_task_interval_s", K::U64),
];

fn value(r: &mut StdRng, k: K, name: &str) -> V {
    match k {
        K::B => V::B(chance(r, 0.5)),
        K::U16 => V::N(*pick(r, &[0, 1, 18, 19, 80, 8080, 65535])),
        K::U32 => V::N(*pick(r, &[1, 7, 1024, 1 << 20, u32::MAX as u64])),
        K::U64 if name == "max_memory" => V::N(*pick(r, &[64, 65, 512, 4096, 1 << 20])),
        K::U64 => V::N(*pick(r, &[1, 7, 64, 4096, 1 << 20, (1 << 40) + 3])),
        K::Access => V::S(match r.gen_range(0..4) { 0 => "any".into(), 1 => "off".into(), _ => str_to_hex_hash(&format!("pw{}", r.gen_range(0..99))) }),
        K::Journal => V::S(pick(r, &["delete", "truncate", "persist", "memory", "wal", "off"]).to_string()),
        K::StoreType => V::S(pick(r, &["local", "local", "memory", "memory", "s3", "s3", "gcs"]).to_string()),
        K::CatalogType => V::S(pick(r, &["sqlite", "sqlite", "sqlite", "clade"]).to_string()),
        K::Dsn => V::S(pick(r, &[":memory:", "sqlite::memory:", "/d/seafowl.sqlite", "http://localhost:54321", "a b.sqlite", "seafowl-data/x=y.sqlite"]).to_string()),
        K::S => V::S(match r.gen_range(0..8) {
            0 => format!("{name}{}", r.gen_range(0..9)),
            1 => "with space \"quoted\" \\ é".into(),
            2 => r.gen_range(0..100000u32).to_string(),
            3 => "true".into(),
            4 => "https://host.example:9000/a?b=c".into(),
            5 => "a,b,c".into(),
            6 => "/x/y".into(),
            _ => "127.0.0.1".into(),
        }),
    }
}
/// text of the wrong type or out of range for the setting: (as TOML, as environment)
fn wrong(r: &mut StdRng, k: K) -> Option<(String, Option<String>)> {
    Some(match k {
        K::B => ("\"maybe\"".into(), Some("maybe".into())),
        K::U16 => { let v = pick(r, &["65536", "-1", "\"abc\"", "70000", "[1]"]).to_string(); let e = v.trim_matches('"').to_string(); (v, (e != "[1]").then_some(e)) }
        K::U32 => { let v = pick(r, &["4294967296", "-1", "\"many\"", "0"]).to_string(); let e = v.trim_matches('"').to_string(); (v, Some(e)) }
        K::U64 => { let v = pick(r, &["-1", "\"lots\"", "-9000"]).to_string(); let e = v.trim_matches('"').to_string(); (v, Some(e)) }
        K::Access => ("[\"any\"]".into(), None),
        K::Journal => ("\"fast\"".into(), Some("fast".into())),
        K::StoreType => { let v = pick(r, &["S3", "azure", "", "Local"]).to_string(); (format!("\"{v}\""), Some(v)) }
        K::CatalogType => { let v = pick(r, &["mysql", "SQLITE", ""]).to_string(); (format!("\"{v}\""), Some(v)) }
        K::S | K::Dsn => ("[\"x\"]".into(), None),
    })
}

type Settings = BTreeMap<(&'static str, &'static str), V>;

/// the settings documented for this text, or why it has to be refused; Err(None): not stated
fn expected(s: &Settings, sections: &[&str]) -> Result<SeafowlConfig, Option<String>> {
    let get = |a: &'static str, b: &'static str| s.get(&(a, b));
    let str = |a, b| get(a, b).map(V::s);
    let has = |a: &str| sections.iter().any(|x| *x == a || x.starts_with(&format!("{a}.")));
    let need = |a, b: &'static str| str(a, b).ok_or(Some(format!("{a}.{b} is missing")));
    let object_store = if has("object_store") {
        Some(match need("object_store", "type")?.as_str() {
            "local" => ObjectStoreConfig::Local(LocalConfig { data_dir: need("object_store", "data_dir")?, disable_hardlinks: get("object_store", "disable_hardlinks").map(V::b).unwrap_or(false) }),
            "memory" => ObjectStoreConfig::Memory,
            "s3" => ObjectStoreConfig::AmazonS3(S3Config {
                region: str("object_store", "region"), access_key_id: str("object_store", "access_key_id"), secret_access_key: str("object_store", "secret_access_key"),
                session_token: str("object_store", "session_token"), endpoint: str("object_store", "endpoint"), bucket: need("object_store", "bucket")?, prefix: str("object_store", "prefix"),
                allow_http: get("object_store", "allow_http").map(V::b).unwrap_or(true), skip_signature: get("object_store", "skip_signature").map(V::b).unwrap_or(true),
            }),
            "gcs" => ObjectStoreConfig::GoogleCloudStorage(GCSConfig { bucket: need("object_store", "bucket")?, prefix: str("object_store", "prefix"), google_application_credentials: str("object_store", "google_application_credentials") }),
            t => return Err(Some(format!("no such store: {t}"))),
        })
    } else { None };
    let catalog = if has("catalog") {
        Some(match need("catalog", "type")?.as_str() {
            "sqlite" => Catalog::Sqlite(Sqlite { dsn: need("catalog", "dsn")?, read_only: get("catalog", "read_only").map(V::b).unwrap_or(false), journal_mode: match str("catalog", "journal_mode").as_deref() {
                None | Some("wal") => SqliteJournalMode::Wal, Some("delete") => SqliteJournalMode::Delete, Some("truncate") => SqliteJournalMode::Truncate,
                Some("persist") => SqliteJournalMode::Persist, Some("memory") => SqliteJournalMode::Memory, Some(_) => SqliteJournalMode::Off } }),
            "clade" => Catalog::Clade(Clade { dsn: need("catalog", "dsn")? }),
            t => return Err(Some(format!("no such catalogue: {t}"))),
        })
    } else { None };
    let access = |x: Option<String>, d: AccessSettings| match x.as_deref() { None => d, Some("any") => AccessSettings::Any, Some("off") => AccessSettings::Off, Some(h) => AccessSettings::Password { sha256_hash: h.to_string() } };
    let n = |a, b, d: u64| get(a, b).map(V::n).unwrap_or(d);
    let cfg = SeafowlConfig {
        frontend: Frontend {
            flight: has("frontend.flight").then(|| FlightFrontend { bind_host: str("frontend.flight", "bind_host").unwrap_or("127.0.0.1".into()), bind_port: n("frontend.flight", "bind_port", 47470) as u16 }),
            http: has("frontend.http").then(|| HttpFrontend {
                bind_host: str("frontend.http", "bind_host").unwrap_or("127.0.0.1".into()), bind_port: n("frontend.http", "bind_port", 8080) as u16,
                read_access: access(str("frontend.http", "read_access"), AccessSettings::Any), write_access: access(str("frontend.http", "write_access"), AccessSettings::Off),
                upload_data_max_length: n("frontend.http", "upload_data_max_length", 256), cache_control: str("frontend.http", "cache_control").unwrap_or("max-age=43200, public".into()),
            }),
        },
        runtime: Runtime { max_memory: get("runtime", "max_memory").map(V::n), temp_dir: str("runtime", "temp_dir").map(PathBuf::from) },
        misc: Misc {
            max_partition_size: n("misc", "max_partition_size", 1024 * 1024) as u32, gc_interval: n("misc", "gc_interval", 0) as u16, ssl_cert_file: str("misc", "ssl_cert_file"),
            metrics: has("misc.metrics").then(|| Metrics { host: str("misc.metrics", "host").unwrap_or("127.0.0.1".into()), port: n("misc.metrics", "port", 9090) as u16 }),
            object_store_cache: has("misc.object_store_cache").then(|| ObjectCacheProperties { capacity: n("misc.object_store_cache", "capacity", 1024 * 1024 * 1024), min_fetch_size: n("misc.object_store_cache", "min_fetch_size", 1024 * 1024), ttl: n("misc.object_store_cache", "ttl", 180) }),
            sync_conf: DataSyncConfig { max_in_memory_bytes: n("misc.sync_conf", "max_in_memory_bytes", 3 << 30) as usize, max_replication_lag_s: n("misc.sync_conf", "max_replication_lag_s", 600), max_syncs_per_url: n("misc.sync_conf", "max_syncs_per_url", 100) as usize, write_lock_timeout_s: n("misc.sync_conf", "write_lock_timeout_s", 3), flush_task_interval_s: n("misc.sync_conf", "flush_task_interval_s", 900) },
        },
        object_store, catalog,
    };
    let mem_store = matches!(cfg.object_store, Some(ObjectStoreConfig::Memory));
    let mem_catalog = matches!(&cfg.catalog, Some(Catalog::Sqlite(s)) if s.dsn.contains(":memory:"));
    if mem_store != mem_catalog {
        // an in-memory store with a catalogue that isn't SQLite's: not stated
        if mem_store && !matches!(cfg.catalog, Some(Catalog::Sqlite(_))) { return Err(None) }
        return Err(Some("an in-memory catalogue with objects that outlive it, or the other way round".into()));
    }
    if let Some(ObjectStoreConfig::AmazonS3(S3Config { region: None, endpoint: None, .. })) = &cfg.object_store { return Err(Some("S3 with neither region nor endpoint".into())) }
    if cfg.runtime.max_memory.is_some_and(|m| m < 64) { return Err(Some("less than 64 MB of memory".into())) }
    Ok(cfg)
}

fn in_process(ctx: &Ctx) {
    for i in 0..ctx.n(4000, 200_000) as u64 {
        if ctx.out_of_time() { break }
        let mut r = ctx.rng_n("config", i);
        let mut file: Settings = Settings::new();
        let mut env: Settings = Settings::new();
        let mut sections: Vec<&str> = vec![];
        let style = r.gen_range(0..4);
        let all: Vec<&'static str> = { let mut v: Vec<_> = LEAVES.iter().map(|l| l.0).collect(); v.dedup(); v };
        for s in &all {
            let (mut p_section, mut p_env) = (0.6, 0.25);
            if matches!(*s, "object_store" | "catalog") { p_section = 0.9; }
            if style == 0 { p_env = 0.0 }
            if style == 3 { p_section = 0.25; p_env = 0.5 }
            let in_file = chance(&mut r, p_section);
            let in_env = chance(&mut r, p_env);
            if in_file { sections.push(s) }
            for (_, name, k) in LEAVES.iter().filter(|l| l.0 == *s) {
                // what the section needs is mostly there
                let needed = matches!(*name, "type" | "data_dir" | "bucket" | "dsn" | "endpoint");
                if in_file && chance(&mut r, if needed { 0.95 } else { 0.5 }) { file.insert((s, name), value(&mut r, *k, name)); }
                if in_env && chance(&mut r, if !in_file && needed { 0.95 } else { 0.35 }) { env.insert((s, name), value(&mut r, *k, name)); }
            }
        }
        // more of the combinations that are valid
        if chance(&mut r, 0.7) {
            let store = env.get(&("object_store", "type")).or(file.get(&("object_store", "type"))).map(V::s);
            let dsn = V::S(if store.as_deref() == Some("memory") { ":memory:".into() } else { pick(&mut r, &["/d/seafowl.sqlite", "s.sqlite"]).to_string() });
            for m in [&mut file, &mut env] { if m.contains_key(&("catalog", "dsn")) { m.insert(("catalog", "dsn"), dsn.clone()); } if m.contains_key(&("catalog", "type")) { m.insert(("catalog", "type"), V::S("sqlite".into())); } }
        }
        // a value that isn't one, sometimes
        let mut bad: Option<((&str, &str), bool, String)> = None;
        let mut low = false;
        if chance(&mut r, 0.25) {
            let (s, name, k) = *pick(&mut r, LEAVES);
            let (in_toml, in_env) = wrong(&mut r, k).unwrap();
            if in_env.is_some() && chance(&mut r, 0.5) { bad = Some(((s, name), true, in_env.unwrap())) }
            else if sections.contains(&s) && !env.contains_key(&(s, name)) { bad = Some(((s, name), false, in_toml)) }
        } else if chance(&mut r, 0.06) {
            let m = if chance(&mut r, 0.5) { &mut env } else { if !sections.contains(&"runtime") { sections.push("runtime") } env.remove(&("runtime", "max_memory")); &mut file };
            m.insert(("runtime", "max_memory"), V::N(*pick(&mut r, &[0, 1, 63])));
            low = true;
        }
        let mut text = String::new();
        for s in &sections {
            text.push_str(&format!("[{s}]\n"));
            for ((a, b), v) in &file {
                if a == s && !matches!(&bad, Some((k, false, _)) if *k == (*a, *b)) { text.push_str(&format!("{b} = {}\n", v.toml())) }
            }
            if let Some(((a, b), false, t)) = &bad { if a == s { text.push_str(&format!("{b} = {t}\n")) } }
        }
        let key = |a: &str, b: &str| format!("SEAFOWL__{}__{}", a.replace('.', "__"), b).to_uppercase();
        let mut vars: HashMap<String, String> = env.iter().map(|((a, b), v)| (key(a, b), v.env())).collect();
        if let Some(((a, b), true, t)) = &bad { vars.insert(key(a, b), t.clone()); }
        // what isn't Seafowl's
        for (k, v) in [("PATH", "/bin"), ("SEAFOWLISH__MISC__GC_INTERVAL", "x"), ("AWS_REGION", "eu-west-1"), ("MISC__GC_INTERVAL", "3")] { vars.insert(k.into(), v.into()); }
        let mut effective = file.clone();
        effective.extend(env.iter().map(|(k, v)| (*k, v.clone())));
        let mut eff_sections: Vec<&str> = sections.clone();
        eff_sections.extend(env.keys().map(|k| k.0));
        let want = expected(&effective, &eff_sections);
        // settings that the type of store or catalogue doesn't have are not looked at
        let matters = |a: &str, b: &str| -> bool {
            let ty = |s: &'static str| effective.get(&(s, "type")).map(V::s).unwrap_or_default();
            match (a, b) {
                (_, "type") => true,
                ("object_store", b) => match ty("object_store").as_str() { "local" => matches!(b, "data_dir" | "disable_hardlinks"), "s3" => !matches!(b, "data_dir" | "disable_hardlinks" | "google_application_credentials"), "gcs" => matches!(b, "bucket" | "prefix" | "google_application_credentials"), _ => false },
                ("catalog", "journal_mode" | "read_only") => ty("catalog") == "sqlite",
                _ => true,
            }
        };
        ctx.eval(&i, true);
        let shown = || format!("{text}\nenvironment:\n{}\n", vars.iter().filter(|(k, _)| k.starts_with("SEAFOWL")).map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("\n"));
        let got = std::panic::catch_unwind(|| load_config_from_string(&text, false, Some(vars.clone())));
        let got = match got { Ok(g) => g.map_err(|e| e.to_string()), Err(_) => { ctx.violation("crash", format!("loading this configuration crashes\n{}", shown())); continue } };
        ctx.count(if got.is_ok() { "accepted" } else { "refused" }, 1);
        ctx.seen("settings", &(effective.keys().collect::<Vec<_>>()));
        if let Some(((a, b), in_env, t)) = &bad {
            if matters(a, b) && got.is_ok() { ctx.violation("wrong value accepted", format!("{a}.{b} = {t} ({}) is accepted: {:?}\n{}", if *in_env { "environment" } else { "file" }, got, shown())); }
            ctx.seen("wrong values", &format!("{a}.{b} {in_env}"));
            continue;
        }
        match (want, got) {
            (Ok(w), Ok(g)) => if w != g { ctx.violation("other settings", format!("expected {w:#?}\nloaded {g:#?}\n{}", shown())); },
            (Ok(_), Err(e)) => ctx.violation("valid configuration refused", format!("{e}\n{}", shown())),
            (Err(Some(w)), Ok(g)) => ctx.violation("invalid configuration accepted", format!("{w}: {g:?}\n{}", shown())),
            (Err(Some(_)), Err(_)) | (Err(None), _) => (),
        }
        let _ = low;
    }
    // the values that other parts can't work with
    for (what, text) in [
        ("max_partition_size 0", "[misc]\nmax_partition_size = 0"),
        ("min_fetch_size 0", "[misc.object_store_cache]\nmin_fetch_size = 0"),
        ("max_memory of more bytes than there are", "[runtime]\nmax_memory = 9223372036854775807"),
        ("no such file syntax", "[misc\nx"), ("a section that is a value", "misc = 3"), ("a store that is a value", "object_store = \"memory\""),
        ("a store without type", "[object_store]\ndata_dir = \"x\""), ("an unknown store", "[object_store]\ntype = \"ftp\""),
    ] {
        ctx.eval(&what, true);
        if let Ok(c) = load_config_from_string(text, false, Some(HashMap::new())) { ctx.violation("invalid configuration accepted", format!("{what}: {text}\n{c:?}")); }
    }
    let (text, cfg) = build_default_config();
    match load_config_from_string(&text, false, Some(HashMap::new())) {
        Ok(c) => { ctx.check(c == cfg, "default configuration", || format!("{text}\nloads as {c:?}, not {cfg:?}")); ctx.check(matches!(&c.frontend.http, Some(h) if h.write_access == AccessSettings::Off), "default configuration", || "lets anyone write".into()); }
        Err(e) => ctx.violation("default configuration", format!("is refused: {e}\n{text}")),
    }
}

pub struct Server { child: std::process::Child, port: u16, pub log: PathBuf }
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub fn free_port() -> u16 { std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }

/// the server itself; Err: it ended by itself
pub fn start(dir: &std::path::Path, port: u16, args: &[&str], env: &[(&str, String)]) -> Result<Server, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("seafowl_server");
    let log = dir.join(format!("log{port}"));
    let out = std::fs::File::create(&log).unwrap();
    let mut c = std::process::Command::new(exe);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("RUST_LOG_STYLE", "never").stdin(std::process::Stdio::null()).stdout(out.try_clone().unwrap()).stderr(out);
    for (k, v) in env { c.env(k, v); }
    let mut s = Server { child: c.spawn().expect("starting seafowl_server"), port, log };
    let t = std::time::Instant::now();
    loop {
        if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() { return Ok(s) }
        if let Ok(Some(st)) = s.child.try_wait() { return Err(format!("{st}: {}", std::fs::read_to_string(&s.log).unwrap_or_default())) }
        if t.elapsed().as_secs() > 60 { return Err("TIMEOUT".into()) }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

async fn post(port: u16, q: &str, password: Option<&str>) -> (u16, String) {
    let mut b = reqwest::Client::new().post(format!("http://127.0.0.1:{port}/q")).json(&serde_json::json!({"query": q}));
    if let Some(p) = password { b = b.bearer_auth(p) }
    match b.send().await { Ok(r) => (r.status().as_u16(), r.text().await.unwrap_or_default()), Err(e) => (0, e.to_string()) }
}

async fn servers(ctx: &Ctx) {
    for i in 0..ctx.n(10, 150) as u64 {
        if ctx.out_of_time() { break }
        let mut r = ctx.rng_n("server", i);
        let dir = crate::sf::scratch();
        let port = free_port();
        let modes = ["default", "file", "env", "both"];
        let mode = modes[i as usize % 4];
        let settings = ["any", "off", "password"];
        let (read, write) = if mode == "default" { ("any", "off") } else { (*pick(&mut r, &settings), *pick(&mut r, &settings)) };
        let text = |a: &str, pw: &str| if a == "password" { str_to_hex_hash(pw) } else { a.to_string() };
        let (rp, wp) = ("readers'", "writers'");
        let gc = *pick(&mut r, &[0u16, 1, 18, 19, 24, 168, 65535]);
        let mut env: Vec<(&str, String)> = vec![];
        let mut args: Vec<&str> = vec![];
        let base = format!("[object_store]\ntype = \"local\"\ndata_dir = \"{0}\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/c.sqlite\"\n", dir.display());
        match mode {
            "default" => { env.push(("SEAFOWL__FRONTEND__HTTP__BIND_PORT", port.to_string())); }
            "file" => {
                std::fs::write(dir.join("c.toml"), format!("{base}[frontend.http]\nbind_port = {port}\nread_access = \"{}\"\nwrite_access = \"{}\"\n[misc]\ngc_interval = {gc}\n", text(read, rp), text(write, wp))).unwrap();
                args.extend(["-c", "c.toml"]);
            }
            "env" => {
                std::fs::write(dir.join("c.toml"), &base).unwrap();
                args.extend(["-c", "c.toml"]);
                env.extend([("SEAFOWL__FRONTEND__HTTP__BIND_PORT", port.to_string()), ("SEAFOWL__FRONTEND__HTTP__READ_ACCESS", text(read, rp)), ("SEAFOWL__FRONTEND__HTTP__WRITE_ACCESS", text(write, wp)), ("SEAFOWL__MISC__GC_INTERVAL", gc.to_string())]);
            }
            _ => {
                // the environment wins
                std::fs::write(dir.join("c.toml"), format!("{base}[frontend.http]\nbind_port = {}\nread_access = \"{}\"\nwrite_access = \"{}\"\n[misc]\ngc_interval = 3\n", free_port(), pick(&mut r, &settings[..2]), pick(&mut r, &settings[..2]))).unwrap();
                args.extend(["-c", "c.toml"]);
                env.extend([("SEAFOWL__FRONTEND__HTTP__BIND_PORT", port.to_string()), ("SEAFOWL__FRONTEND__HTTP__READ_ACCESS", text(read, rp)), ("SEAFOWL__FRONTEND__HTTP__WRITE_ACCESS", text(write, wp)), ("SEAFOWL__MISC__GC_INTERVAL", gc.to_string())]);
            }
        }
        // the first run with the generated configuration can't be told the port but through the environment, and does not read it
        if mode == "default" {
            let out = std::process::Command::new(std::env::current_exe().unwrap().with_file_name("seafowl_server")).args(["--one-off", "SELECT 1 AS x"]).current_dir(&dir).env_clear().output().unwrap();
            let o = String::from_utf8_lossy(&out.stdout).to_string();
            ctx.eval(&("one-off", i), true);
            if !out.status.success() || !o.contains("{\"x\":1}") || !dir.join("seafowl.toml").exists() { ctx.violation("first run", format!("{}: {o}{}", out.status, String::from_utf8_lossy(&out.stderr))); continue }
        }
        let shown = format!("mode {mode}, read access {read}, write access {write}, gc_interval {gc}");
        let server = match start(&dir, port, &args, &env) {
            Ok(s) => s,
            Err(e) if e == "TIMEOUT" => { ctx.inconclusive(format!("the server did not come up in time: {shown}")); continue }
            Err(e) => { ctx.violation("server does not start", format!("{shown}\n{e}")); continue }
        };
        ctx.count("servers started", 1);
        for n in 0..8 {
            let writes = n % 2 == 1;
            let (setting, pw) = if writes { (write, wp) } else { (read, rp) };
            let token = *pick(&mut r, &[None, Some(rp), Some(wp), Some("wrong"), Some(""), Some("hash")]);
            let hash = text("password", pw);
            let token = if token == Some("hash") { Some(hash.as_str()) } else { token };
            let allowed = match setting { "any" => token.is_none(), "off" => false, _ => token == Some(pw) };
            // with a token that isn't needed, or that opens the other half, C40 decides
            let undecided = (setting == "any" && token.is_some()) || (!writes && write == "password" && token == Some(wp)) ;
            let q = if writes { format!("CREATE TABLE t{n} AS SELECT 1 AS x") } else { "SELECT 1 AS x".to_string() };
            let (st, body) = post(server.port, &q, token).await;
            ctx.eval(&(mode, read, write, token.map(str::len), writes), true);
            if undecided { continue }
            // writing also needs to be let in at all
            if writes && read == "off" && write == "any" { continue }
            ctx.check((st == 200) == allowed, "access", || format!("{shown}: {q} with token {token:?} is answered {st} {body}"));
        }
        drop(server);
        let _ = std::fs::remove_dir_all(&dir);
    }
    // refused at start-up
    for (what, text) in [
        ("mixed", "[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"c.sqlite\"\n[frontend.http]\n".to_string()),
        ("port", "[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n[frontend.http]\nbind_port = 70000\n".into()),
        ("memory", "[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n[frontend.http]\n[runtime]\nmax_memory = 10\n".into()),
        ("no frontend", "[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n".into()),
    ] {
        let dir = crate::sf::scratch();
        std::fs::write(dir.join("c.toml"), &text).unwrap();
        let port = free_port();
        ctx.eval(&("start-up", what), true);
        match start(&dir, port, &["-c", "c.toml"], &[("SEAFOWL__FRONTEND__FLIGHT__BIND_PORT", port.to_string())].into_iter().filter(|_| what != "no frontend").collect::<Vec<_>>()) {
            Err(e) if e != "TIMEOUT" => { ctx.count("servers refused", 1); }
            Err(_) => ctx.inconclusive("a server neither came up nor ended"),
            Ok(_) => ctx.violation("invalid configuration accepted", format!("the server starts with ({what})\n{text}")),
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

/// the upload limit is the number of megabytes it says, whatever the number
async fn upload_limits(ctx: &Ctx) {
    for mb in [0u64, 1, 2, 256, 1 << 20, 1 << 43, 1 << 44, (1 << 44) + 1, u64::MAX >> 20, u64::MAX] {
        let s = crate::sf::Sf::memory("").await;
        let cfg = HttpFrontend { write_access: AccessSettings::Any, upload_data_max_length: mb, ..Default::default() };
        use futures::FutureExt;
        let made = std::panic::AssertUnwindSafe(async { super::http::routes(&s.ctx, cfg) }).catch_unwind().await;
        let Ok(routes) = made else {
            ctx.violation("upload limit", format!("the HTTP server can't be set up with upload_data_max_length = {mb}: {}", sfv::last_panic()));
            continue;
        };
        for (i, size) in [100usize, (1 << 20) + 10, (2 << 20) + 10].into_iter().enumerate() {
            let mut csv = b"a\n1\n".to_vec();
            csv.resize(size, b'1');
            // one long number would not do as a number: it's text in many lines
            for j in (5..size).step_by(9) { csv[j] = b'\n' }
            let (ct, body) = super::http::multipart(&[("data", Some("f.csv"), &csv)]);
            let allowed = (body.len() as u128) <= (mb as u128) << 20;
            let length = body.len().to_string();
            let a = match super::http::ask(&routes, "POST", &format!("/upload/public/t{i}"), &[("content-type", &ct), ("content-length", &length)], body).await {
                Ok(a) => a,
                Err(e) => { ctx.violation("upload limit", format!("{size} bytes with a limit of {mb} MB: {e}")); continue }
            };
            let good = ctx.check((a.status == 200) == allowed, "upload limit", || format!("{size} bytes with a limit of {mb} MB: answered {}", a.status));
            ctx.eval(&("upload limit", mb, size), good);
        }
    }
}

pub fn c41(ctx: &Ctx) {
    in_process(ctx);
    super::rt(4).block_on(async { upload_limits(ctx).await; servers(ctx).await });
}
