//! C55: catalogues described by a metadata service, over the network or inline with the query
use super::flight::{inline, query, redeem, ticket, Server};
use super::http::{ask, multipart, post, routes, Routes};
use super::mock::Mock;
use super::s3mock::{self, signer, Objects};
use crate::sf::{self, Sf};
use clade::schema::schema_store_service_server::{SchemaStoreService, SchemaStoreServiceServer};
use clade::schema::{ListSchemaRequest, ListSchemaResponse, SchemaObject, StorageLocation, TableFormat, TableObject};
use seafowl::config::schema::{AccessSettings, HttpFrontend};
use sfv::rand::rngs::StdRng;
use sfv::rand::seq::SliceRandom;
use sfv::rand::{Rng, SeedableRng};
use sfv::{chance, pick, Ctx};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::{Code, Request, Response, Status};

#[derive(Clone)]
enum Reply { Ok(ListSchemaResponse), Fail(Code, String), Slow(u64, ListSchemaResponse) }

/// what the service says about each catalogue, and what it was asked
#[derive(Default)]
struct Book { says: Mutex<HashMap<String, Reply>>, asked: Mutex<Vec<String>> }

struct Service(Arc<Book>);
#[tonic::async_trait]
impl SchemaStoreService for Service {
    async fn list_schemas(&self, q: Request<ListSchemaRequest>) -> Result<Response<ListSchemaResponse>, Status> {
        let name = q.into_inner().catalog_name;
        self.0.asked.lock().unwrap().push(name.clone());
        let r = self.0.says.lock().unwrap().get(&name).cloned();
        match r {
            Some(Reply::Ok(r)) => Ok(Response::new(r)),
            Some(Reply::Slow(ms, r)) => { tokio::time::sleep(Duration::from_millis(ms)).await; Ok(Response::new(r)) }
            Some(Reply::Fail(c, m)) => Err(Status::new(c, m)),
            None => Err(Status::not_found(format!("Catalog {name} does not exist"))),
        }
    }
}

fn serve(book: Arc<Book>, port: u16) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        let _ = tonic::transport::Server::builder().add_service(SchemaStoreServiceServer::new(Service(book)).max_encoding_message_size(usize::MAX)).serve(([127, 0, 0, 1], port).into()).await;
    })
}
fn free_port() -> u16 { std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }

/// tables on disk, each with what marks it: table `i` has rows (i, 1..=1 + i % 4)
struct Donor { dirs: Vec<PathBuf>, _sf: Sf }
impl Donor {
    async fn new(n: usize) -> Donor {
        let sf = Sf::disk("").await;
        let mut dirs = vec![];
        let mut known = BTreeSet::new();
        for i in 0..n {
            let rows: Vec<String> = (0..1 + i % 4).map(|j| format!("({i}, {j})")).collect();
            sf.sql(&format!("CREATE TABLE t{i} AS SELECT column1 AS marker, column2 AS n FROM (VALUES {})", rows.join(", "))).await.unwrap();
            for e in std::fs::read_dir(sf.dir.join("data")).unwrap().flatten() {
                if known.insert(e.file_name()) { dirs.push(e.path()) }
            }
        }
        assert_eq!(dirs.len(), n);
        Donor { dirs, _sf: sf }
    }
    fn files(&self, i: usize) -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        let mut todo = vec![self.dirs[i].clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let p = e.path();
                if p.is_dir() { todo.push(p) } else { out.push((p.strip_prefix(&self.dirs[i]).unwrap().display().to_string(), std::fs::read(&p).unwrap())) }
            }
        }
        out
    }
}

/// every file below some directories, with a digest
fn digest(roots: &[PathBuf]) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    let mut todo: Vec<PathBuf> = roots.to_vec();
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() { todo.push(p) } else { out.insert(p.display().to_string(), sfv::hash_of(&std::fs::read(&p).unwrap_or_default())); }
        }
    }
    out
}

/// somewhere that tables can be
enum Place { Dir(PathBuf), S3 { bucket: String, prefix: String, mock: usize } }
struct Stand { name: String, location: String, options: HashMap<String, String>, place: Place }

#[derive(Clone, Debug, PartialEq)]
enum Holds { Marker(usize), Iceberg { path: String, ident: String, props: String } }

/// what a catalogue says, and what that means
#[derive(Clone, Default)]
struct Case { says: ListSchemaResponse, means: BTreeMap<(String, String), Holds>, schemas: BTreeSet<String> }

struct World {
    donor: Donor,
    dir: PathBuf,
    default_dir: Option<PathBuf>,
    stands: Vec<Stand>,
    mocks: Vec<Mock>,
    objects: Vec<Objects>,
    book: Arc<Book>,
    port: u16,
    task: tokio::task::JoinHandle<()>,
    server: Server,
    routes: Routes,
    kind: &'static str,
}
impl Drop for World { fn drop(&mut self) { self.task.abort(); let _ = std::fs::remove_dir_all(&self.dir); } }

const NAMES: &[&str] = &["public", "alpha", "Alpha", "beta two", "γάμμα", "x.y", "\"q\"", "t", "T", "select", "1st", "under_score", "a-b", "it's", "emoji 🦉", "tab\there", "%41", "staging2", "default", "a/b"];
const SEGMENTS: &[&str] = &["a", "b c", "tbl", "T", "x.y", "k=v", "a+b", "1-2", "under_score", "(p)", "c&d", "e,f", "0189abcd-0000-7000-8000-00000000000a", "_delta_log_not"];

fn ident(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }

async fn world(r: &mut StdRng, n: usize) -> World {
    let kind = *pick(r, &["with a store of its own", "without a store"]);
    let donor = Donor::new(n).await;
    let dir = sf::scratch();
    let default_dir = (kind == "with a store of its own").then(|| dir.join("data"));
    let mut stands = vec![];
    let (mut mocks, mut objects) = (vec![], vec![]);
    for i in 0..2 {
        let o: Objects = Default::default();
        mocks.push(Mock::start(s3mock::handler(o.clone())).await);
        objects.push(o);
        let _ = i;
    }
    for i in 0..r.gen_range(1..4usize) {
        let root = dir.join(format!("root {i}"));
        std::fs::create_dir_all(&root).unwrap();
        let mut location = url::Url::from_file_path(&root).unwrap().to_string();
        if chance(r, 0.5) { location.push('/') }
        stands.push(Stand { name: format!("disk{i}"), location, options: HashMap::new(), place: Place::Dir(root) });
    }
    for i in 0..r.gen_range(1..4usize) {
        let mock = r.gen_range(0..2usize);
        let bucket = format!("bucket-{}", r.gen_range(0..2));
        let prefix = pick(r, &["", "in", "in/side", "a b"]).to_string();
        let location = format!("s3://{bucket}{}{}", if prefix.is_empty() { String::new() } else { format!("/{}", prefix.replace(' ', "%20")) }, if chance(r, 0.3) { "/" } else { "" });
        let options: HashMap<String, String> = [("endpoint", format!("http://{}", mocks[mock].host())), ("access_key_id", format!("key{i}")), ("secret_access_key", format!("secret{i}")), ("region", format!("region-{i}")), ("allow_http", "true".into())].map(|(k, v)| (if i % 2 == 0 { format!("aws_{k}") } else { k.to_string() }, v)).into_iter().collect();
        stands.push(Stand { name: format!("s3 {i}"), location, options, place: Place::S3 { bucket, prefix, mock } });
    }
    let book: Arc<Book> = Default::default();
    let port = free_port();
    let task = serve(book.clone(), port);
    let mut text = format!("[catalog]\ntype = \"clade\"\ndsn = \"http://127.0.0.1:{port}\"\n");
    if let Some(d) = &default_dir {
        std::fs::create_dir_all(d).unwrap();
        text += &format!("[object_store]\ntype = \"local\"\ndata_dir = \"{}\"\n", d.display());
    }
    let sf = Sf::with(&text, &dir).await;
    let cfg = HttpFrontend { bind_host: "127.0.0.1".into(), bind_port: 0, read_access: AccessSettings::Any, write_access: AccessSettings::Any, upload_data_max_length: 1, cache_control: "private".into() };
    let routes = routes(&sf.ctx, cfg);
    let server = Server::start(sf).await;
    World { donor, dir, default_dir, stands, mocks, objects, book, port, task, server, routes, kind }
}

impl World {
    fn put(&self, stand: Option<usize>, path: &str, marker: usize) {
        let files = self.donor.files(marker);
        let root = match stand {
            None => self.default_dir.clone().unwrap(),
            Some(i) => match &self.stands[i].place {
                Place::Dir(d) => d.clone(),
                Place::S3 { bucket, prefix, mock } => {
                    let mut o = self.objects[*mock].lock().unwrap();
                    for (name, bytes) in files {
                        let key: Vec<&str> = [bucket.as_str(), prefix, path, &name].iter().flat_map(|s| s.split('/')).filter(|s| !s.is_empty()).collect();
                        o.insert(key.join("/"), bytes);
                    }
                    return;
                }
            },
        };
        for (name, bytes) in files {
            let to = root.join(path.trim_matches('/')).join(name);
            std::fs::create_dir_all(to.parent().unwrap()).unwrap();
            std::fs::write(to, bytes).unwrap();
        }
    }
    fn wipe(&self) {
        for o in &self.objects { o.lock().unwrap().clear() }
        for d in self.stands.iter().filter_map(|s| match &s.place { Place::Dir(d) => Some(d), _ => None }).chain(&self.default_dir) {
            let _ = std::fs::remove_dir_all(d);
            std::fs::create_dir_all(d).unwrap();
        }
    }
    fn contents(&self) -> (BTreeMap<String, u64>, Vec<BTreeMap<String, u64>>) {
        (digest(&[self.dir.clone()]), self.objects.iter().map(|o| o.lock().unwrap().iter().map(|(k, v)| (k.clone(), sfv::hash_of(v))).collect()).collect())
    }
    /// a catalogue, with the tables it names in place. No two stores in it share a location.
    fn case(&self, r: &mut StdRng, used: &mut BTreeSet<(Option<usize>, String)>) -> Case {
        let mut stands: Vec<usize> = (0..self.stands.len()).collect();
        stands.shuffle(r);
        let mut at = BTreeSet::new();
        stands.retain(|i| at.insert(self.stands[*i].location.trim_end_matches('/').to_string()));
        let mut case = Case::default();
        // stores are known by the names they're given in this answer
        let named: BTreeMap<usize, String> = stands.iter().map(|i| (*i, if chance(r, 0.3) { format!("{} {}", pick(r, NAMES), i) } else { self.stands[*i].name.clone() })).collect();
        let mut stores: Vec<StorageLocation> = named.iter().map(|(i, n)| StorageLocation { name: n.clone(), location: self.stands[*i].location.clone(), options: self.stands[*i].options.clone() }).collect();
        if chance(r, 0.3) { stores.push(StorageLocation { name: "unused".into(), location: "s3://nowhere".into(), options: HashMap::new() }) }
        let mut schemas = NAMES.to_vec();
        schemas.shuffle(r);
        for s in schemas.iter().take(r.gen_range(0..4)) {
            let mut tables = vec![];
            let mut names = NAMES.to_vec();
            names.shuffle(r);
            for t in names.iter().take(r.gen_range(0..5)) {
                let iceberg = chance(r, 0.2) && !stands.is_empty();
                let stand = if (self.default_dir.is_some() && !iceberg && chance(r, 0.4)) || stands.is_empty() { None } else { Some(*pick(r, &stands)) };
                if stand.is_none() && self.default_dir.is_none() { continue }
                let depth = r.gen_range(1..3usize);
                let mut path = (0..depth).map(|_| *pick(r, SEGMENTS)).collect::<Vec<_>>().join("/");
                if stand.is_none() { path = path.replace('/', "-") }
                let store = stand.map(|i| named[&i].clone());
                if iceberg {
                    let st = &self.stands[stand.unwrap()];
                    let file = format!("{}{path}/metadata/v1.metadata.json", if chance(r, 0.3) { "/" } else { "" });
                    let mut props: Vec<String> = st.options.iter().filter_map(|(k, v)| match k.trim_start_matches("aws_") {
                        "endpoint" => Some(format!("s3.endpoint={v}")), "access_key_id" => Some(format!("s3.access-key-id={v}")), "secret_access_key" => Some(format!("s3.secret-access-key={v}")), "region" => Some(format!("s3.region={v}")), _ => None,
                    }).collect();
                    props.sort();
                    case.means.insert((s.to_string(), t.to_string()), Holds::Iceberg { path: format!("{}/{}", st.location.trim_end_matches('/'), file.trim_start_matches('/')), ident: t.to_string(), props: props.join(" ") });
                    tables.push(TableObject { name: t.to_string(), path: file, store, format: TableFormat::Iceberg.into() });
                    continue;
                }
                // one table's directory isn't inside another's
                let clash = used.iter().any(|(st, p)| *st == stand && p != &path && (p.starts_with(&format!("{path}/")) || path.starts_with(&format!("{p}/"))));
                if clash { continue }
                let marker = if used.insert((stand, path.clone())) { let m = r.gen_range(0..self.donor.dirs.len()); self.put(stand, &path, m); m } else { continue };
                case.means.insert((s.to_string(), t.to_string()), Holds::Marker(marker));
                tables.push(TableObject { name: t.to_string(), path, store, format: TableFormat::Delta.into() });
            }
            case.schemas.insert(s.to_string());
            case.says.schemas.push(SchemaObject { name: s.to_string(), tables });
        }
        case.says.stores = stores;
        case
    }
    /// rows of text, however it's asked for
    async fn ask(&self, way: &str, db: &str, sql: &str, says: &ListSchemaResponse) -> Result<Vec<Vec<String>>, String> {
        match way {
            "session" => sf::sql(&self.server.sf.ctx.scope_to_catalog(db.into()), sql).await.map(|b| sf::rows(&b)).map_err(|e| e.to_string()),
            "http" => {
                let a = post(&self.routes, &if db == "default" { "/q".to_string() } else { format!("/{db}/q") }, sql, &[]).await?;
                if a.status != 200 { return Err(format!("{}: {}", a.status, a.text())) }
                let mut out = vec![];
                for l in a.text().lines() {
                    // in the order of the columns, which this map keeps only by name: queries name them c0, c1...
                    let j: BTreeMap<String, serde_json::Value> = serde_json::from_str(l).map_err(|e| format!("answer {l:?}: {e}"))?;
                    out.push(j.values().map(|v| v.as_str().map(String::from).unwrap_or_else(|| v.to_string())).collect());
                }
                Ok(out)
            }
            "flight" => { let mut c = self.server.client().await; query(&mut c, sql, None).await.map(|b| sf::rows(&b)).map_err(|e| e.to_string()) }
            "inline" => {
                let mut c = self.server.client().await;
                let i = inline(&mut c, sql, Some(says.clone())).await.map_err(|e| e.to_string())?;
                redeem(&mut c, ticket(&i)).await.map(|b| sf::rows(&b.1)).map_err(|e| e.to_string())
            }
            _ => unreachable!(),
        }
    }
}

fn marker_rows(m: usize) -> Vec<Vec<String>> { (0..1 + m % 4).map(|j| vec![m.to_string(), j.to_string()]).collect() }

/// everything a catalogue shows, against what it says
async fn shows(ctx: &Ctx, w: &World, way: &str, db: &str, c: &Case, r: &mut StdRng, when: &str) {
    let rep = |d: String| format!("{d} ({way}, database {db}, {}, {when}, answer {:?})", w.kind, sfv::trunc(&format!("{:?}", c.says), 3000));
    let own = "table_schema NOT IN ('information_schema', 'system', 'staging')";
    // all of them exist, and nothing else. This loads every table.
    match w.ask(way, db, &format!("SELECT table_schema AS c0, table_name AS c1 FROM information_schema.tables WHERE {own} AND table_catalog = '{db}'"), &c.says).await {
        Err(e) => ctx.violation("shown/listing-failed", rep(e)),
        Ok(got) => {
            let got: Vec<(String, String)> = { let mut g: Vec<_> = got.into_iter().map(|x| (x[0].clone(), x[1].clone())).collect(); g.sort(); g };
            let want: Vec<(String, String)> = c.means.keys().cloned().collect();
            ctx.count("tables_listed", want.len() as u64);
            ctx.check(got == want, "shown/tables", || rep(format!("listed {got:?}, described {want:?}")));
        }
    }
    match w.ask(way, db, &format!("SELECT schema_name AS c0 FROM information_schema.schemata WHERE schema_name NOT IN ('information_schema', 'system', 'staging') AND catalog_name = '{db}'"), &c.says).await {
        Err(e) => ctx.violation("shown/schemata-failed", rep(e)),
        Ok(got) => { let got: Vec<String> = { let mut g: Vec<_> = got.into_iter().map(|x| x[0].clone()).collect(); g.sort(); g }; ctx.check(got == c.schemas.iter().cloned().collect::<Vec<_>>(), "shown/schemas", || rep(format!("listed {got:?}, described {:?}", c.schemas))); }
    }
    for m in &w.mocks { m.taken(); }
    for ((s, t), h) in &c.means {
        let name = format!("{}.{}", ident(s), ident(t));
        ctx.count("tables_read", 1);
        match h {
            Holds::Marker(m) => { match w.ask(way, db, &format!("SELECT marker AS c0, n AS c1 FROM {name} ORDER BY n"), &c.says).await {
                Err(e) => ctx.violation("shown/read-failed", rep(format!("{name}: {e}"))),
                Ok(got) => ctx.check(got == marker_rows(*m), "shown/wrong-table", || rep(format!("{name} is table {m} with {} rows, reads {got:?}", 1 + m % 4))).then_some(()).unwrap_or(()),
            }
                // a version as of the far future is the current one, from the same place
                if chance(r, 0.4) {
                    match w.ask(way, db, &format!("SELECT marker AS c0, n AS c1 FROM {name}('2200-01-01 00:00:00') ORDER BY n"), &c.says).await {
                        Err(e) => ctx.violation("shown/travel-failed", rep(format!("{name} as of 2200: {e}"))),
                        Ok(got) => { ctx.count("tables_read_in_time", 1); ctx.check(got == marker_rows(*m), "shown/travel-wrong-table", || rep(format!("{name} as of 2200 is table {m}, reads {got:?}"))); }
                    }
                }
            }
            Holds::Iceberg { path, ident: i, props } => match w.ask(way, db, &format!("SELECT ident AS c0, path AS c1, props AS c2 FROM {name}"), &c.says).await {
                Err(e) => ctx.violation("shown/iceberg-failed", rep(format!("{name}: {e}"))),
                Ok(got) => {
                    let x = got.first().cloned().unwrap_or_default();
                    ctx.check(x.len() == 3 && x[0].ends_with(i.as_str()) && x[1] == *path, "shown/iceberg-location", || rep(format!("{name} is at {path}, opened {got:?}")));
                    // other options may be handed on too
                    let given: Vec<&str> = x.get(2).map(|p| p.split(' ').filter(|p| p.starts_with("s3.") && !p.starts_with("s3.disable") && !p.starts_with("s3.allow")).collect()).unwrap_or_default();
                    ctx.check(given.join(" ") == *props, "shown/iceberg-options", || rep(format!("{name} has options {props:?}, opened with {:?}", x.get(2))));
                    ctx.count("iceberg_tables_opened", 1);
                }
            },
        }
        // whoever answers for this store has been asked by the holder of its keys
        let stand = c.says.schemas.iter().filter(|x| x.name == *s).flat_map(|x| &x.tables).find(|x| x.name == *t).and_then(|x| x.store.clone()).and_then(|n| c.says.stores.iter().find(|x| x.name == n)).and_then(|l| w.stands.iter().find(|x| x.location == l.location && x.options == l.options));
        for (i, m) in w.mocks.iter().enumerate() {
            for q in m.taken() {
                match stand {
                    Some(Stand { place: Place::S3 { mock, bucket, .. }, options, .. }) if *mock == i => {
                        let opt = |k: &str| options.get(k).or_else(|| options.get(&format!("aws_{k}"))).cloned().unwrap_or_default();
                        let who = signer(&q);
                        ctx.count("signed_requests", 1);
                        ctx.check(who.as_ref().is_some_and(|x| x.key == opt("access_key_id") && x.region == opt("region")) && s3mock::signed_with(&q, &opt("secret_access_key")), "shown/wrong-options", || rep(format!("{name}: {} {} signed by {who:?}, the options are {options:?}", q.method, q.target)));
                        ctx.check(s3mock::decode(&q.target).starts_with(&format!("/{bucket}")), "shown/wrong-bucket", || rep(format!("{name}: asked for {} in {bucket}", q.target)));
                    }
                    _ => ctx.violation("shown/wrong-store", rep(format!("{name}: server {i} was asked for {} {}", q.method, q.target))),
                }
            }
        }
    }
    // and what isn't there isn't there
    let (s, t) = (*pick(r, NAMES), *pick(r, NAMES));
    if !c.means.contains_key(&(s.into(), t.into())) {
        let got = w.ask(way, db, &format!("SELECT 1 AS c0 FROM {}.{}", ident(s), ident(t)), &c.says).await;
        ctx.check(got.is_err(), "shown/phantom", || rep(format!("{s}.{t} isn't described, but reads {got:?}")));
        if let Err(e) = got { ctx.check(!e.contains("panic"), "shown/phantom-panic", || rep(format!("{s}.{t}: {e}"))); }
    }
    // the tables about the local catalogue have nothing to tell, whichever way they say so
    for q in ["SELECT * FROM system.table_versions", "SELECT * FROM system.dropped_tables"] {
        if let Err(e) = w.ask(way, db, q, &c.says).await { ctx.check(!e.contains("panic"), "shown/system-panic", || rep(format!("{q}: {e}"))); }
    }
}

/// a table with this path in a store other than one's own, or the other way around, keeps what it has
async fn refusals(ctx: &Ctx, w: &World, c: &Case, r: &mut StdRng) {
    let tables: Vec<_> = c.means.iter().filter(|(_, h)| matches!(h, Holds::Marker(_))).map(|(k, _)| k.clone()).collect();
    let way = *pick(r, &["session", "http", "flight", "inline"]);
    let schema = c.schemas.iter().next().cloned().unwrap_or("public".into());
    let mut texts: Vec<(&str, String)> = vec![
        ("create", format!("CREATE TABLE {}.newt (a INT)", ident(&schema))), ("ctas", format!("CREATE TABLE {}.newt AS SELECT 1 AS a", ident(&schema))), ("schema", "CREATE SCHEMA news".into()), ("drop-schema", format!("DROP SCHEMA {}", ident(&schema))),
        ("database", "CREATE DATABASE newdb".into()), ("function", "CREATE FUNCTION nf AS '{\"entrypoint\":\"f\",\"language\":\"wasm\",\"input_types\":[\"int\"],\"return_type\":\"int\",\"data\":\"AGFzbQEAAAABBgFgAX8BfwMCAQAHBQEBZgAACgYBBAAgAAs=\"}'".into()), ("drop-function", "DROP FUNCTION nf".into()),
    ];
    for _ in 0..2 {
        let Some((s, t)) = tables.choose(r) else { break };
        let n = format!("{}.{}", ident(s), ident(t));
        texts.extend([
            ("insert", format!("INSERT INTO {n} VALUES (100, 100)")), ("insert-select", format!("INSERT INTO {n} SELECT * FROM {n}")), ("update", format!("UPDATE {n} SET n = 7")), ("update-where", format!("UPDATE {n} SET marker = 7 WHERE n = 0")), ("delete", format!("DELETE FROM {n}")), ("delete-where", format!("DELETE FROM {n} WHERE n = 0")),
            ("drop", format!("DROP TABLE {n}")), ("rename", format!("ALTER TABLE {n} RENAME TO {}.renamed", ident(s))), ("vacuum", format!("VACUUM TABLE {n}")), ("truncate", format!("TRUNCATE TABLE {n}")), ("upload", n.clone()),
        ]);
    }
    texts.shuffle(r);
    texts.truncate(9);
    let before = w.contents();
    for (kind, q) in texts {
        if ctx.out_of_time() { return }
        let res = if kind == "upload" {
            let Some((s, t)) = tables.choose(r) else { continue };
            let (ct, body) = multipart(&[("has_header", None, b"true"), ("data", Some("x.csv"), b"marker,n\n5,5\n")]);
            let a = ask(&w.routes, "POST", &format!("/upload/{}/{}", super::http::percent(s), super::http::percent(t)), &[("content-type", ct.as_str())], body).await;
            a.and_then(|a| if a.status == 200 { Ok(vec![]) } else { Err(format!("{}: {}", a.status, a.text())) })
        } else { w.ask(way, "default", &q, &c.says).await };
        ctx.count("changes_refused", res.is_err() as u64);
        ctx.seen("refusals", &format!("{kind}/{way}/{}", w.kind));
        let rep = |d: String| format!("{kind} {q}: {d} ({way}, {}, answered {:?}), {:?}", w.kind, res.as_ref().map(|r| r.len()).map_err(|e| sfv::trunc(e, 300)), sfv::trunc(&format!("{:?}", c.says), 1500));
        ctx.check(res.is_err(), &format!("refused/{kind}-accepted"), || rep("a change was accepted".into()));
        if let Err(e) = &res { ctx.check(!e.contains("panic"), "refused/panic", || rep(e.clone())); }
        let after = w.contents();
        if after != before {
            let changed: Vec<&String> = after.0.iter().filter(|(k, v)| before.0.get(*k) != Some(v)).map(|x| x.0).chain(before.0.keys().filter(|k| !after.0.contains_key(*k))).collect();
            ctx.violation(&format!("refused/{kind}-changed"), rep(format!("the stores aren't as they were: {} files on disk differ, e.g. {:?}, or objects in S3", changed.len(), changed.iter().take(3).collect::<Vec<_>>())));
            return;
        }
        if kind == "function" { let got = w.ask(way, "default", "SELECT nf(1) AS c0", &c.says).await; ctx.check(got.is_err(), "refused/function-there", || rep(format!("the function works: {got:?}"))); }
    }
    shows(ctx, w, way, "default", c, r, "after refusals").await;
}

/// answers which aren't as they should be
async fn odd(ctx: &Ctx, w: &World, c: &Case, r: &mut StdRng) {
    let mut says = c.says.clone();
    let kind = *pick(r, &["nothing", "repeated", "format", "store", "location", "path", "name", "conflict", "many"]);
    let mut means = c.clone();
    let mut may_fail = false;
    let mut names: Option<&str> = None;
    match kind {
        "nothing" => { says = Default::default(); means = Case::default(); }
        "repeated" => { let (s, t) = (says.schemas.clone(), says.stores.clone()); says.schemas.extend(s); says.stores.extend(t); for s in &mut says.schemas { let t = s.tables.clone(); s.tables.extend(t) } }
        "format" | "store" | "location" | "name" | "path" => {
            let Some(s) = says.schemas.iter_mut().filter(|s| !s.tables.is_empty()).next() else { return };
            let t = &mut s.tables[0];
            may_fail = true;
            match kind {
                "format" => t.format = *pick(r, &[2, 7, -1, i32::MAX]),
                "store" => { t.store = Some("no such store".into()); names = Some("no such store") }
                "location" => { t.store = Some("odd".into()); let l = *pick(r, &["", "not a url", "s3://", "file:", "data:x", "ftp://h/x", "http://h/x", "s3://b?x", "file:///nonexistent/nowhere", "file://host/x", "gs://b", "az://c/x", "mailto:a@b", "memory://", "file:///"]); says.stores.push(StorageLocation { name: "odd".into(), location: l.into(), options: if chance(r, 0.5) { [("no such option".to_string(), "".to_string())].into() } else { HashMap::new() } }); }
                "name" => { let n = pick(r, &["", ".", "..", "/", "\0", " ", "public.x"]).to_string(); t.name = n; }
                _ => { let p = pick(r, &["", "/", "//", "..", "../..", "a//b", "no/such/dir", "%2e%2e", "#x", "?y", "\0", "🦉"]).to_string(); t.path = p; }
            }
        }
        "conflict" => {
            // one name, two meanings: either of them, or an error, but nothing else
            let Some(s) = says.schemas.iter().find(|s| s.tables.len() > 1).cloned() else { return };
            let mut x = s.tables[1].clone();
            x.name = s.tables[0].name.clone();
            says.schemas.iter_mut().find(|x| x.name == s.name).unwrap().tables.push(x);
            let (a, b) = (&means.means[&(s.name.clone(), s.tables[0].name.clone())], &means.means[&(s.name.clone(), s.tables[1].name.clone())]);
            if let (Holds::Marker(a), Holds::Marker(b)) = (a, b) {
                w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(says.clone()));
                let got = w.ask("session", "default", &format!("SELECT marker AS c0, n AS c1 FROM {}.{} ORDER BY n", ident(&s.name), ident(&s.tables[0].name)), &says).await;
                ctx.check(match &got { Err(e) => !e.contains("panic"), Ok(g) => *g == marker_rows(*a) || *g == marker_rows(*b) }, "odd/conflict", || format!("table {a} or {b}: {got:?}"));
                ctx.eval("odd/conflict", true);
            }
            return;
        }
        "many" => { for i in 0..300 { says.schemas.push(SchemaObject { name: format!("many{i}"), tables: vec![] }); means.schemas.insert(format!("many{i}")); } }
        _ => unreachable!(),
    }
    means.says = says.clone();
    w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(says.clone()));
    let way = *pick(r, &["session", "http", "flight", "inline"]);
    let files = w.contents();
    if may_fail {
        // anything but a crash or a hang; what it says has to name the trouble
        let mut said = vec![];
        for q in ["SELECT table_name AS c0 FROM information_schema.tables".to_string(), "SELECT 1 AS c0".into(), says.schemas.iter().flat_map(|s| s.tables.iter().map(move |t| format!("SELECT * FROM {}.{}", ident(&s.name), ident(&t.name)))).next().unwrap_or("SELECT 2 AS c0".into())] {
            match tokio::time::timeout(Duration::from_secs(100), w.ask(way, "default", &q, &says)).await {
                Err(_) => ctx.violation(&format!("odd/{kind}-hang"), format!("{q} with {says:?}")),
                Ok(Err(e)) => { ctx.check(!e.contains("panic") && !e.contains("h2 protocol") && !e.is_empty(), &format!("odd/{kind}-panic"), || format!("{q}: {e} {} with {says:?}", sfv::last_panic_any())); said.push(e) }
                Ok(Ok(_)) => {}
            }
        }
        if let Some(n) = names { ctx.check(said.iter().any(|e| e.contains(n)), "odd/unnamed-trouble", || format!("{n} isn't named in {said:?}")); }
        ctx.check(w.contents() == files, "odd/changed", || format!("files changed by reading, with {says:?}"));
        w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(c.says.clone()));
        shows(ctx, w, way, "default", c, r, "after an odd answer").await;
    } else {
        shows(ctx, w, way, "default", &means, r, kind).await;
    }
    ctx.seen("odd_answers", kind);
    ctx.eval(&format!("odd/{kind}/{way}"), true);
}

/// the service fails, or isn't there, and comes back
async fn failing(ctx: &Ctx, w: &mut World, c: &Case, r: &mut StdRng) {
    let way = *pick(r, &["session", "http", "flight"]);
    let q = c.means.iter().find_map(|((s, t), h)| matches!(h, Holds::Marker(_)).then(|| format!("SELECT marker AS c0 FROM {}.{}", ident(s), ident(t)))).unwrap_or("SELECT count(*) AS c0 FROM information_schema.tables".into());
    let rep = |d: String| format!("{d} ({way})");
    let kind = *pick(r, &["status", "gone", "unknown-catalogue", "slow", "concurrent"]);
    match kind {
        "status" => {
            let code = *pick(r, &[Code::Unavailable, Code::Internal, Code::NotFound, Code::PermissionDenied, Code::ResourceExhausted, Code::Cancelled, Code::Unknown, Code::DeadlineExceeded, Code::Unauthenticated]);
            w.book.says.lock().unwrap().insert("default".into(), Reply::Fail(code, "the-trouble-is".into()));
            let got = w.ask(way, "default", &q, &c.says).await;
            ctx.check(matches!(&got, Err(e) if e.contains("the-trouble-is")), "failing/status", || rep(format!("{code:?}: {got:?}")));
        }
        "gone" => {
            w.task.abort();
            tokio::time::sleep(Duration::from_millis(20)).await;
            match tokio::time::timeout(Duration::from_secs(60), w.ask(way, "default", &q, &c.says)).await {
                // an open connection may outlive the listener
                Ok(Ok(_)) | Ok(Err(_)) => {}
                Err(_) => ctx.violation("failing/hang", rep("no answer in 60 s while the service is down".into())),
            }
            let mut task = serve(w.book.clone(), w.port);
            for _ in 0..100 { tokio::time::sleep(Duration::from_millis(20)).await; if tokio::net::TcpStream::connect(("127.0.0.1", w.port)).await.is_ok() { break } if task.is_finished() { task = serve(w.book.clone(), w.port) } }
            w.task = task;
            // the first use may find the connection closed
            for _ in 0..3 { if w.ask(way, "default", "SELECT 1 AS c0", &c.says).await.is_ok() { break } }
        }
        "unknown-catalogue" => {
            let got = w.ask(if way == "flight" { "http" } else { way }, "nodb", &q, &c.says).await;
            ctx.check(got.is_err(), "failing/unknown-catalogue", || rep(format!("{got:?}")));
        }
        "slow" => {
            w.book.says.lock().unwrap().insert("default".into(), Reply::Slow(300, c.says.clone()));
            let got = w.ask(way, "default", "SELECT 1 AS c0", &c.says).await;
            ctx.check(got.is_ok(), "failing/slow", || rep(format!("{got:?}")));
        }
        _ => {
            // while answers change, each query is answered from one of them
            let Some(((s, t), Holds::Marker(m))) = c.means.iter().find(|(_, h)| matches!(h, Holds::Marker(_))) else { return };
            let Some(((s2, t2), Holds::Marker(m2))) = c.means.iter().filter(|(_, h)| matches!(h, Holds::Marker(_))).last() else { return };
            let mut swapped = c.says.clone();
            let of = |says: &ListSchemaResponse, s: &str, t: &str| says.schemas.iter().find(|x| x.name == s).unwrap().tables.iter().find(|x| x.name == t).unwrap().clone();
            let (a, b) = (of(&c.says, s, t), of(&c.says, s2, t2));
            for x in &mut swapped.schemas { for y in &mut x.tables { if x.name == *s && y.name == *t { *y = TableObject { name: t.clone(), ..b.clone() } } else if x.name == *s2 && y.name == *t2 { *y = TableObject { name: t2.clone(), ..a.clone() } } } }
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let flip = { let (book, stop, one, two) = (w.book.clone(), stop.clone(), c.says.clone(), swapped); tokio::spawn(async move { let mut n = 0u64; while !stop.load(std::sync::atomic::Ordering::SeqCst) { book.says.lock().unwrap().insert("default".into(), Reply::Ok(if n % 2 == 0 { two.clone() } else { one.clone() })); n += 1; tokio::time::sleep(Duration::from_micros(700)).await } }) };
            let q = format!("SELECT a.marker AS c0, b.marker AS c1 FROM {}.{} a, {}.{} b LIMIT 1", ident(s), ident(t), ident(s2), ident(t2));
            let all = futures::future::join_all((0..8).map(|_| async { let mut out = vec![]; for _ in 0..3 { out.push(w.ask(way, "default", &q, &c.says).await) } out })).await;
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            let _ = flip.await;
            for g in all.into_iter().flatten() {
                ctx.count("answers_during_changes", 1);
                ctx.check(matches!(&g, Ok(g) if *g == vec![vec![m.to_string(), m2.to_string()]] || *g == vec![vec![m2.to_string(), m.to_string()]]), "failing/mixed", || rep(format!("tables {m} and {m2} or the other way around, got {g:?}")));
            }
        }
    }
    w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(c.says.clone()));
    shows(ctx, w, way, "default", c, r, "after a failure").await;
    ctx.seen("failures", kind);
    ctx.eval(&format!("failing/{kind}/{way}"), true);
}

async fn round(ctx: &Ctx, r: &mut StdRng) {
    let mut w = world(r, 12).await;
    for _ in 0..3 {
        if ctx.out_of_time() { return }
        w.wipe();
        let mut used = BTreeSet::new();
        let a = w.case(r, &mut used);
        let b = w.case(r, &mut used);
        { let mut s = w.book.says.lock().unwrap(); s.clear(); s.insert("default".into(), Reply::Ok(a.says.clone())); s.insert("other".into(), Reply::Ok(b.says.clone())); }
        w.book.asked.lock().unwrap().clear();
        let files = w.contents();
        for way in ["session", "http", "flight"] { shows(ctx, &w, way, "default", &a, r, "plain").await }
        for way in ["session", "http"] { shows(ctx, &w, way, "other", &b, r, "plain").await }
        // an inline catalogue doesn't ask anybody
        w.book.asked.lock().unwrap().clear();
        shows(ctx, &w, "inline", "default", &b, r, "inline").await;
        ctx.check(w.book.asked.lock().unwrap().is_empty(), "inline/asked", || format!("{:?}", w.book.asked.lock().unwrap()));
        ctx.check(w.contents() == files, "shown/changed", || "reading changed what's in the stores".into());
        ctx.eval(&format!("shown/{}/{:x}", w.kind, sfv::hash_of(&format!("{:?}", a.says))), !a.means.is_empty());
        refusals(ctx, &w, &a, r).await;
        ctx.eval(&format!("refused/{}/{:x}", w.kind, sfv::hash_of(&format!("{:?}", a.says))), !a.means.is_empty());
        for _ in 0..2 { w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(a.says.clone())); odd(ctx, &w, &a, r).await }
        w.book.says.lock().unwrap().insert("default".into(), Reply::Ok(a.says.clone()));
        failing(ctx, &mut w, &a, r).await;
    }
}

/// nobody has described a catalogue at all
async fn none(ctx: &Ctx) {
    let dir = sf::scratch();
    let sf = Sf::with("", &dir).await;
    for q in ["SELECT 1", "SELECT * FROM t", "CREATE TABLE t (a INT)", "DROP TABLE t", "VACUUM TABLE t", "SELECT * FROM information_schema.tables", "CREATE SCHEMA s", "CREATE EXTERNAL TABLE e STORED AS CSV LOCATION '/dev/null'"] {
        let got = sf.rows(q).await;
        ctx.check(matches!(&got, Err(e) if !e.to_string().contains("panic")), "none/answered", || format!("{q}: {got:?}"));
    }
    ctx.eval("none", true);
}

pub fn c55(ctx: &Ctx) {
    ctx.rule("one evaluation = one catalogue description shown every way and then tried to be changed, or one odd answer or failure of the service; distinct by description, kind and way; trivial when no table is described");
    ctx.assume("stores in one answer have different locations, since Delta tables are told apart by location inside a query (delta-rs)");
    ctx.assume("paths of Delta tables avoid the characters which object_store percent-encodes; two different tables of the same name may show as either");
    std::env::set_var("RUST_BACKTRACE", "0");
    let rt = super::rt(8);
    rt.block_on(async {
        let mut r = ctx.rng("external");
        none(ctx).await;
        for _ in 0..ctx.n(8, 200) {
            if ctx.out_of_time() { break }
            round(ctx, &mut r).await;
        }
    });
}
