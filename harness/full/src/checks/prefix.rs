//! C34: what a table's store touches in the shared store
use crate::spy::Spy;
use futures::{StreamExt, TryStreamExt};
use object_store::{local::LocalFileSystem, memory::InMemory, path::Path, Error, GetOptions, ObjectStore, PutMode, PutOptions, PutPayload};
use object_store_factory::{aws::S3Config, google::GCSConfig, local::LocalConfig, ObjectStoreConfig};
use seafowl::object_store::{factory::ObjectStoreFactory, utils::fast_upload, wrapped::InternalObjectStore};
use sfv::{chance, pick, rand::{rngs::StdRng, Rng}, Ctx};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

type Objects = BTreeMap<String, Vec<u8>>;

async fn contents(s: &dyn ObjectStore) -> Objects {
    let mut out = Objects::new();
    for m in s.list(None).collect::<Vec<_>>().await {
        let m = m.unwrap();
        out.insert(m.location.to_string(), s.get(&m.location).await.unwrap().bytes().await.unwrap().to_vec());
    }
    out
}
fn under(key: &str, prefix: &str) -> bool { key == prefix || key.starts_with(&format!("{prefix}/")) }

const NAMES: &[&str] = &["part-0.parquet", "_delta_log/00000000000000000000.json", "_delta_log/00000000000000000001.json", "a", "a/b", "a/bc", "ab/c", "deep/er/still/x", "with space", "é", "x%y", "a.b", "~t", "col=1/part"];

fn name(r: &mut StdRng, local: bool) -> Path {
    let n = *pick(r, NAMES);
    // in a file system a file can't be a directory too
    Path::from(if local && n == "a" { "a.file" } else { n })
}

async fn one(ctx: &Ctx, r: &mut StdRng) {
    let kind = *pick(r, &["memory", "local", "local-no-links", "s3", "s3-prefix", "gcs-prefix"]);
    let store_prefix = *pick(r, &["p", "some/path", "some/path/", "/lead", "a", "p q", "tables"]);
    let dir = crate::sf::scratch();
    let local = kind.starts_with("local");
    let (raw, config): (Arc<dyn ObjectStore>, ObjectStoreConfig) = match kind {
        "local" | "local-no-links" => (Arc::new(LocalFileSystem::new_with_prefix(&dir).unwrap().with_automatic_cleanup(chance(r, 0.5))), ObjectStoreConfig::Local(LocalConfig { data_dir: dir.display().to_string(), disable_hardlinks: kind != "local" })),
        "memory" => (Arc::new(InMemory::new()), ObjectStoreConfig::Memory),
        "s3" => (Arc::new(InMemory::new()), ObjectStoreConfig::AmazonS3(S3Config { bucket: "b".into(), ..Default::default() })),
        "s3-prefix" => (Arc::new(InMemory::new()), ObjectStoreConfig::AmazonS3(S3Config { bucket: "b".into(), prefix: Some(store_prefix.into()), endpoint: chance(r, 0.5).then(|| "http://127.0.0.1:9000".to_string()), ..Default::default() })),
        _ => (Arc::new(InMemory::new()), ObjectStoreConfig::GoogleCloudStorage(GCSConfig { bucket: "b".into(), prefix: Some(store_prefix.into()), google_application_credentials: None })),
    };
    let spy = Spy::new(raw.clone());
    let shared = InternalObjectStore::new(spy.clone(), config.clone());
    let base = if kind.ends_with("-prefix") { Path::from(store_prefix).to_string() + "/" } else { String::new() };
    // prefixes, some of which extend the names of others
    let id = uuid::Uuid::from_u128(r.gen()).to_string();
    let mut names: Vec<String> = vec![id.clone(), format!("{id}0"), format!("{}", &id[..35]), uuid::Uuid::from_u128(r.gen()).to_string(), "tbl".into(), "tbl1".into(), "tbl.x".into(), "tbl 1".into(), "TBL".into()];
    for i in (1..names.len()).rev() { names.swap(i, r.gen_range(0..=i)); }
    names.truncate(r.gen_range(2..7));
    let mut model: BTreeMap<String, Objects> = names.iter().map(|n| (n.clone(), Objects::new())).collect();
    let key = |t: &str| format!("{base}{}", Path::from(t));
    // objects that are no table's
    let outside: Objects = [("elsewhere/x".to_string(), b"1".to_vec()), ("tb".to_string(), b"2".to_vec())].into();
    for (k, v) in &outside { raw.put(&Path::parse(k).unwrap(), v.clone().into()).await.unwrap(); }
    let mut trace = vec![format!("{kind}, store prefix {base:?}, tables {names:?}")];
    for t in &names {
        if shared.table_prefix(t).to_string() != key(t) { return ctx.violation("table prefix", format!("{} for {t}, expected {}\n{}", shared.table_prefix(t), key(t), trace[0])) }
        if let Some(d) = shared.local_table_dir(t) { if d != format!("{}/{t}", dir.display()) { return ctx.violation("table directory", format!("{d} for {t}")) } }
        else if local { return ctx.violation("table directory", "none for a local store") }
    }
    spy.take();
    for _ in 0..r.gen_range(15..50) {
        let t = pick(r, &names).clone();
        let log = shared.get_log_store(&t);
        let s = log.object_store();
        let m = model.get_mut(&t).unwrap();
        let (p, q) = (name(r, local), name(r, local));
        let (ps, qs) = (p.to_string(), q.to_string());
        let body: Vec<u8> = (0..r.gen_range(0..40)).map(|_| r.gen()).collect();
        let op = *pick(r, &["put", "put", "put", "create", "multipart", "multipart-aborted", "get", "get_range", "get_opts", "head", "list", "list", "list_offset", "list_delim", "delete", "delete_stream", "copy", "copy_ine", "rename", "rename_ine", "delete_in_prefix", "upload"]);
        trace.push(format!("{t}: {op} {ps} {qs}"));
        let story = |m: String| format!("{m}\n{}", trace.join("\n"));
        ctx.eval(&(kind, op, m.contains_key(&ps), m.contains_key(&qs)), true);
        ctx.count("operations", 1);
        let no_check = kind == "local-no-links";
        let mut fail: Option<String> = None;
        let mut expect = |ok: bool, what: String| if !ok { fail = Some(what) };
        let not_found = |e: &Error| matches!(e, Error::NotFound { .. });
        match op {
            "put" => { let e = s.put(&p, body.clone().into()).await; expect(e.is_ok(), format!("{e:?}")); m.insert(ps, body); }
            "create" => {
                let e = s.put_opts(&p, PutPayload::from(body.clone()), PutOptions { mode: PutMode::Create, ..Default::default() }).await;
                let there = m.contains_key(&ps);
                if there && !no_check { expect(matches!(e, Err(Error::AlreadyExists { .. })), format!("creating what exists: {e:?}")) } else { expect(e.is_ok(), format!("{e:?}")); m.insert(ps, body); }
            }
            "multipart" | "multipart-aborted" => {
                let e = async { let mut u = s.put_multipart(&p).await?; for c in body.chunks(16) { u.put_part(c.to_vec().into()).await?; } if op == "multipart" { u.complete().await.map(|_| ()) } else { u.abort().await } }.await;
                expect(e.is_ok(), format!("{e:?}"));
                if op == "multipart" { m.insert(ps, body); }
            }
            "get" | "head" => {
                let g = if op == "get" { match s.get(&p).await { /* PrefixStore leaves the full key in what it says about an object it gets */ Ok(g) => g.bytes().await.map(|b| (p.clone(), b.len(), Some(b.to_vec()))), Err(e) => Err(e) } } else { s.head(&p).await.map(|h| (h.location, h.size, None)) };
                match (m.get(&ps), g) {
                    (Some(v), Ok((l, n, b))) => expect(l == p && n == v.len() && b.as_ref().map_or(true, |b| b == v), format!("got {l} of {n} bytes, expected {ps} of {}", v.len())),
                    (None, Err(e)) => expect(not_found(&e), format!("{e:?} for a missing object")),
                    (w, g) => expect(false, format!("{g:?}, expected {w:?}")),
                }
            }
            "get_range" | "get_opts" => {
                let Some(v) = m.get(&ps).filter(|v| !v.is_empty()) else { continue };
                let a = r.gen_range(0..v.len()); let b = r.gen_range(a + 1..=v.len());
                let g = if op == "get_range" { s.get_range(&p, a..b).await } else { match s.get_opts(&p, GetOptions { range: Some((a..b).into()), ..Default::default() }).await { Ok(g) => g.bytes().await, Err(e) => Err(e) } };
                expect(matches!(&g, Ok(x) if x[..] == v[a..b]), format!("{g:?} for bytes {a}..{b} of {v:?}"));
            }
            "list" | "list_offset" => {
                let pre = chance(r, 0.5).then(|| Path::from(*pick(r, &["a", "_delta_log", "deep/er", "nothing", "ab"])));
                let got: Result<Vec<_>, _> = if op == "list" { s.list(pre.as_ref()).try_collect().await } else { s.list_with_offset(pre.as_ref(), &p).try_collect().await };
                let got: Result<Vec<_>, _> = got.map(|g| g.into_iter().map(|x| (x.location.to_string(), x.size)).collect::<Vec<_>>());
                let want: BTreeSet<(String, usize)> = m.iter().filter(|(k, _)| pre.as_ref().map_or(true, |x| k.starts_with(&format!("{x}/"))) && (op == "list" || k.as_str() > ps.as_str())).map(|(k, v)| (k.clone(), v.len())).collect();
                match got { Ok(g) => expect(g.len() == want.len() && g.iter().cloned().collect::<BTreeSet<_>>() == want, format!("listed {g:?} below {pre:?}, expected {want:?}")), Err(e) => expect(false, format!("{e:?}")) }
            }
            "list_delim" => {
                match s.list_with_delimiter(None).await {
                    Ok(g) => {
                        let o: BTreeSet<String> = g.objects.iter().map(|x| x.location.to_string()).collect();
                        let c: BTreeSet<String> = g.common_prefixes.iter().map(|x| x.to_string()).collect();
                        let wo: BTreeSet<String> = m.keys().filter(|k| !k.contains('/')).cloned().collect();
                        let wc: BTreeSet<String> = m.keys().filter_map(|k| k.split_once('/').map(|x| x.0.to_string())).collect();
                        // a file system may show directories that have become empty
                        expect(o == wo && (if local { wc.is_subset(&c) } else { c == wc }), format!("listed {o:?} and {c:?}, expected {wo:?} and {wc:?}"));
                    }
                    Err(e) => expect(false, format!("{e:?}")),
                }
            }
            "delete" => { let e = s.delete(&p).await; if m.remove(&ps).is_some() { expect(e.is_ok(), format!("{e:?}")) } else if let Err(e) = e { expect(not_found(&e), format!("{e:?}")) } }
            "delete_stream" => {
                let all: Vec<Path> = m.keys().filter(|_| chance(r, 0.6)).map(|k| Path::parse(k).unwrap()).collect();
                let got: Result<Vec<Path>, _> = s.delete_stream(futures::stream::iter(all.clone().into_iter().map(Ok)).boxed()).try_collect().await;
                for k in &all { m.remove(k.as_ref()); }
                expect(matches!(&got, Ok(g) if g.iter().collect::<BTreeSet<_>>() == all.iter().collect()), format!("{got:?}, expected {all:?}"));
            }
            "copy" | "copy_ine" | "rename" | "rename_ine" => {
                if p == q { continue }
                let e = match op { "copy" => s.copy(&p, &q).await, "copy_ine" => s.copy_if_not_exists(&p, &q).await, "rename" => s.rename(&p, &q).await, _ => s.rename_if_not_exists(&p, &q).await };
                match m.get(&ps).cloned() {
                    None => expect(e.is_err(), "a missing object was copied".into()),
                    Some(v) => {
                        let overwrites = !op.ends_with("ine") || no_check || (op == "rename_ine" && kind.starts_with("s3"));
                        if m.contains_key(&qs) && !overwrites { expect(matches!(e, Err(Error::AlreadyExists { .. })), format!("{e:?} for an existing target")) }
                        else { expect(e.is_ok(), format!("{e:?}")); m.insert(qs, v); if op.starts_with("rename") { m.remove(&ps); } }
                    }
                }
            }
            "delete_in_prefix" => { if chance(r, 0.6) { continue } let e = shared.delete_in_prefix(&shared.table_prefix(&t)).await; expect(e.is_ok(), format!("{e:?}")); m.clear(); }
            "upload" => {
                let Some(d) = shared.local_table_dir(&t) else { continue };
                let f = dir.with_extension("tmp");
                std::fs::write(&f, &body).unwrap();
                let n = *pick(r, &["part-0.parquet", "part-9.parquet", "new/part"]);
                let e = fast_upload(&f, format!("{d}/{n}")).await;
                expect(e.is_ok() && !f.exists(), format!("{e:?}"));
                m.insert(n.to_string(), body);
            }
            _ => unreachable!(),
        }
        if let Some(f) = fail { return ctx.violation(&format!("{op} on {kind}"), story(f)) }
        // nothing outside the table was asked for
        for c in spy.take() {
            ctx.count("requests_seen", 1);
            if !under(&c.path, &key(&t)) { return ctx.violation("touches another key", story(format!("{} {} of the shared store for table {t} ({})", c.op, c.path, key(&t)))) }
        }
        // and the shared store has what all tables together have
        let mut want = outside.clone();
        for (t, o) in &model { for (k, v) in o { want.insert(format!("{}/{k}", key(t)), v.clone()); } }
        let got = contents(raw.as_ref()).await;
        if got != want {
            let d: Vec<String> = got.keys().filter(|k| want.get(*k) != got.get(*k)).map(|k| format!("+{k}")).chain(want.keys().filter(|k| !got.contains_key(*k)).map(|k| format!("-{k}"))).collect();
            return ctx.violation("shared store", story(format!("after {op} on {t}: {d:?}")));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// tables in stores given by a URL
async fn urls(ctx: &Ctx, r: &mut StdRng) {
    let dir = crate::sf::scratch();
    let cfg = seafowl::config::schema::load_config_from_string("", false, Some(HashMap::new())).unwrap();
    let f = ObjectStoreFactory::new_from_config(&cfg).unwrap();
    let sub = *pick(r, &["plain", "with space", "per%cent", "é", "plus+", "a/b"]);
    let root = dir.join(sub);
    std::fs::create_dir_all(&root).unwrap();
    let slash = chance(r, 0.5);
    let url = if slash { url::Url::from_directory_path(&root) } else { url::Url::from_file_path(&root) }.unwrap();
    let mut model = Objects::new();
    for _ in 0..r.gen_range(1..8) {
        let t = pick(r, &["t", "tt", "t/x", "db/schema/t", "with space"]).to_string();
        let n = name(r, true).to_string();
        ctx.eval(&("url", sub, slash, &t), true);
        let log = match f.get_log_store_for_table(url.clone(), HashMap::new(), t.clone()).await { Ok(l) => l, Err(e) => return ctx.violation("url/store", format!("{url} {t}: {e}")) };
        let body: Vec<u8> = (0..5).map(|_| r.gen()).collect();
        if let Err(e) = log.object_store().put(&Path::parse(&n).unwrap(), body.clone().into()).await { return ctx.violation("url/put", format!("{url} {t} {n}: {e}")) }
        model.insert(format!("{t}/{n}"), body);
        let got = contents(&LocalFileSystem::new_with_prefix(&root).unwrap()).await;
        if got != model { return ctx.violation("url/place", format!("{url}, table {t}, object {n}: the directory has {:?}, expected {:?}; below {:?}: {:?}", got.keys(), model.keys(), dir, contents(&LocalFileSystem::new_with_prefix(&dir).unwrap()).await.keys())) }
        let mine: BTreeSet<String> = log.object_store().list(None).map_ok(|m| m.location.to_string()).try_collect().await.unwrap();
        let want: BTreeSet<String> = model.keys().filter_map(|k| k.strip_prefix(&format!("{t}/")).map(String::from)).collect();
        if mine != want { return ctx.violation("url/list", format!("{url} {t}: {mine:?}, expected {want:?}")) }
    }
    // in memory, two URLs are two stores or two directories
    let f = ObjectStoreFactory::new_from_config(&cfg).unwrap();
    let mut stores = vec![];
    for (u, t) in [("memory:///", "t"), ("memory:///", "tt"), ("memory:///x", "t"), ("memory:///x y", "t")] {
        let log = match f.get_log_store_for_table(url::Url::parse(u).unwrap(), HashMap::new(), t.into()).await { Ok(l) => l, Err(e) => return ctx.violation("url/memory", format!("{u}: {e}")) };
        log.object_store().put(&Path::from("o"), format!("{u} {t}").into_bytes().into()).await.unwrap();
        stores.push((u, t, log));
    }
    for (u, t, log) in &stores {
        let l: Vec<String> = log.object_store().list(None).map_ok(|m| m.location.to_string()).try_collect().await.unwrap();
        let b = log.object_store().get(&Path::from("o")).await.unwrap().bytes().await.unwrap();
        ctx.check(l == ["o"] && b == format!("{u} {t}"), "url/memory", || format!("{u} {t} sees {l:?} {b:?}"));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c34(ctx: &Ctx) {
    ctx.rule("one evaluation = one operation through a table's store, checked against the model of that table, the keys requested from the shared store and the contents of the whole shared store; distinct by (kind of store, operation, presence of source and target)");
    super::rt(4).block_on(async {
        let mut r = ctx.rng("prefix");
        for _ in 0..ctx.n(900, 60_000) { if ctx.out_of_time() { break } one(ctx, &mut r).await; }
        for _ in 0..ctx.n(60, 2000) { if ctx.out_of_time() { break } urls(ctx, &mut r).await; }
    });
}
