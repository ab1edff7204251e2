//! A whole Seafowl in this process, with its catalogue and objects in a scratch directory
use arrow::record_batch::RecordBatch;
use datafusion::error::Result as DfResult;
use seafowl::config::{context::build_context, schema::load_config_from_string};
use seafowl::context::SeafowlContext;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn scratch() -> PathBuf {
    let base = std::env::var("SFV_WORK").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("s{:016x}", sfv::rand::random::<u64>()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub struct Sf {
    pub ctx: Arc<SeafowlContext>,
    pub dir: PathBuf,
    keep: bool,
}

impl Drop for Sf {
    fn drop(&mut self) {
        if !self.keep {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

impl Sf {
    /// catalogue and objects on disk, under `dir`
    pub async fn open(dir: &Path, extra: &str) -> Self {
        std::fs::create_dir_all(dir.join("data")).unwrap();
        let text = format!(
            "[object_store]\ntype = \"local\"\ndata_dir = \"{0}/data\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/seafowl.sqlite\"\n{extra}\n",
            dir.display()
        );
        let cfg = load_config_from_string(&text, false, None).unwrap_or_else(|e| panic!("{e}\n{text}"));
        Self { ctx: Arc::new(build_context(cfg).await.unwrap()), dir: dir.to_path_buf(), keep: false }
    }
    pub async fn disk(extra: &str) -> Self {
        Self::open(&scratch(), extra).await
    }
    /// as the configuration says
    pub async fn with(text: &str, dir: &Path) -> Self {
        let cfg = load_config_from_string(text, false, None).unwrap_or_else(|e| panic!("{e}\n{text}"));
        Self { ctx: Arc::new(build_context(cfg).await.unwrap()), dir: dir.to_path_buf(), keep: false }
    }
    /// everything in memory
    pub async fn memory(extra: &str) -> Self {
        let text = format!("[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n{extra}\n");
        let cfg = load_config_from_string(&text, false, None).unwrap_or_else(|e| panic!("{e}\n{text}"));
        Self { ctx: Arc::new(build_context(cfg).await.unwrap()), dir: scratch(), keep: false }
    }
    /// everything in memory, with what is written or deleted going through a spy
    pub async fn spied(extra: &str) -> (Self, Arc<crate::spy::Spy>) {
        let mut sf = Self::memory(extra).await;
        let ctx = Arc::get_mut(&mut sf.ctx).unwrap();
        let old = ctx.internal_object_store.clone().unwrap();
        let spy = crate::spy::Spy::new(old.inner.clone());
        ctx.internal_object_store = Some(Arc::new(seafowl::object_store::wrapped::InternalObjectStore::new(spy.clone(), old.config.clone())));
        (sf, spy)
    }
    /// objects in memory and the catalogue in a file, with everything in the store going through a spy
    pub async fn spied_catalogue(extra: &str) -> (Self, Arc<crate::spy::Spy>) {
        use seafowl::{catalog::metastore::Metastore, object_store::{factory::ObjectStoreFactory, wrapped::InternalObjectStore}, repository::sqlite::SqliteRepository};
        let dir = scratch();
        let dsn = format!("{}/seafowl.sqlite", dir.display());
let text = format!("[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n{extra}\n");
        let cfg = load_config_from_string(&text, false, None).unwrap_or_else(|e| panic!("{e}\n{text}"));
        let mut ctx = build_context(cfg).await.unwrap();
        let old = ctx.internal_object_store.clone().unwrap();
        let spy = crate::spy::Spy::new(old.inner.clone());
        let store = Arc::new(InternalObjectStore::new(spy.clone(), old.config.clone()));
        let repository = SqliteRepository::try_new(dsn, sqlx::sqlite::SqliteJournalMode::Wal).await.unwrap();
        ctx.metastore = Arc::new(Metastore::new_from_repository(Arc::new(repository), Arc::new(ObjectStoreFactory::verif_with_store(store.clone()))));
        ctx.internal_object_store = Some(store);
        ctx.metastore.catalogs.create("default").await.unwrap();
        ctx.metastore.schemas.create("default", "public").await.unwrap();
        (Self { ctx: Arc::new(ctx), dir, keep: false }, spy)
    }
    /// leave the files in place when this goes away
    pub fn into_kept(mut self) -> PathBuf {
        self.keep = true;
        self.dir.clone()
    }
    pub async fn sql(&self, q: &str) -> DfResult<Vec<RecordBatch>> {
        sql(&self.ctx, q).await
    }
    pub async fn rows(&self, q: &str) -> DfResult<Vec<Vec<String>>> {
        Ok(rows(&self.sql(q).await?))
    }
    /// every file below the scratch directory (WAL bookkeeping aside) with a digest, and the catalogue's contents row by row
    pub async fn state(&self) -> BTreeMap<String, String> {
        let mut out = BTreeMap::new();
        let root = self.dir.clone();
        let mut todo = vec![root.clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                let name = p.strip_prefix(&root).unwrap().display().to_string();
                if name.starts_with("seafowl.sqlite") {
                    continue;
                }
                if p.is_dir() {
                    todo.push(p);
                } else {
                    out.insert(format!("file {name}"), format!("{:016x}", sfv::hash_of(&std::fs::read(&p).unwrap_or_default())));
                }
            }
        }
        let db = root.join("seafowl.sqlite");
        if db.exists() {
            for (k, v) in dump_sqlite(&db).await {
                out.insert(k, v);
            }
        } else {
            for (n, q) in [("tables", "SELECT table_catalog, table_schema, table_name FROM information_schema.tables"), ("columns", "SELECT table_catalog, table_schema, table_name, column_name, data_type FROM information_schema.columns"), ("versions", "SELECT * FROM system.table_versions")] {
                let mut r = self.rows(q).await.unwrap_or_default();
                r.sort();
                out.insert(format!("listing {n}"), format!("{r:?}"));
            }
        }
        out
    }
}

pub async fn dump_sqlite(db: &Path) -> BTreeMap<String, String> {
    use sqlx::{Column, ConnectOptions, Row, TypeInfo, ValueRef};
    let mut out = BTreeMap::new();
    let mut c = sqlx::sqlite::SqliteConnectOptions::new().filename(db).read_only(true).busy_timeout(std::time::Duration::from_secs(20)).connect().await.unwrap();
    let tables: Vec<(String,)> = sqlx::query_as("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '_sqlx%'").fetch_all(&mut c).await.unwrap();
    for (t,) in tables {
        let rows = sqlx::query(&format!("SELECT * FROM \"{t}\"")).fetch_all(&mut c).await.unwrap();
        let mut lines: Vec<String> = rows
            .iter()
            .map(|r| {
                (0..r.columns().len())
                    .map(|i| {
                        let v = r.try_get_raw(i).unwrap();
                        let ty = v.type_info().name().to_string();
                        let s = if v.is_null() {
                            "NULL".to_string()
                        } else {
                            match ty.as_str() {
                                "INTEGER" | "BOOLEAN" | "INT8" => r.try_get_unchecked::<i64, _>(i).unwrap().to_string(),
                                "REAL" => r.try_get_unchecked::<f64, _>(i).unwrap().to_string(),
                                _ => format!("{:?}", String::from_utf8_lossy(&r.try_get_unchecked::<Vec<u8>, _>(i).unwrap())),
                            }
                        };
                        format!("{}={s}", r.columns()[i].name())
                    })
                    .collect::<Vec<_>>()
                    .join(",")
            })
            .collect();
        lines.sort();
        for (i, l) in lines.into_iter().enumerate() {
            out.insert(format!("row {t} {i}"), l);
        }
    }
    out
}

/// run each statement of a text (Seafowl executes DDL and DML when it plans them)
pub async fn sql(ctx: &SeafowlContext, q: &str) -> DfResult<Vec<RecordBatch>> {
    let plan = ctx.plan_query(q).await?;
    ctx.collect(plan).await
}

pub fn rows(batches: &[RecordBatch]) -> Vec<Vec<String>> {
    use arrow::util::display::{ArrayFormatter, FormatOptions};
    let opts = FormatOptions::default().with_null("NULL");
    let mut out = vec![];
    for b in batches {
        let f: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &opts).unwrap()).collect();
        for i in 0..b.num_rows() {
            out.push(f.iter().map(|f| f.value(i).to_string()).collect());
        }
    }
    out
}

pub fn difference(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    let mut out = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            out.push(format!("{k}: {:?} -> {:?}", a.get(k), b.get(k)));
        }
    }
    out
}
