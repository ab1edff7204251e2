//! The table as DataFusion sees it.
use crate::kernel::Add;
use crate::logstore::LogStoreRef;
use crate::table::{DeltaTableState, Stats};
use crate::{DeltaResult, DeltaTable, DeltaTableError};
use arrow_schema::SchemaRef;
use async_trait::async_trait;
use datafusion::catalog::{Session, TableProviderFactory};
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::physical_plan::{parquet::ParquetExecBuilder, FileScanConfig};
use datafusion::datasource::{TableProvider, TableType};
use datafusion::error::{DataFusionError, Result};
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::physical_optimizer::pruning::PruningPredicate;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_common::{DFSchema, Statistics};
use datafusion_expr::utils::conjunction;
use datafusion_expr::{CreateExternalTable, Expr, TableProviderFilterPushDown};
use std::any::Any;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

async fn scan(session: &dyn Session, log: &LogStoreRef, schema: SchemaRef, adds: &[Add], projection: Option<&Vec<usize>>, filters: &[Expr], limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
    // files whose statistics rule out every row are left out, and so are parts of files
    let mut predicate = None;
    let keep = match conjunction(filters.to_vec()) {
        None => vec![true; adds.len()],
        Some(f) => {
            let df = DFSchema::try_from(schema.as_ref().clone())?;
            let p = session.create_physical_expr(f, &df)?;
            predicate = Some(p.clone());
            PruningPredicate::try_new(p, schema.clone())?.prune(&Stats { adds, schema: schema.clone() })?
        }
    };
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (log.location().as_str(), Arc::as_ptr(log) as *const () as usize).hash(&mut h);
    let url = ObjectStoreUrl::parse(format!("delta-rs://t{:016x}", h.finish()))?;
    session.runtime_env().register_object_store(url.as_ref(), Arc::new(Kept { inner: log.object_store(), _log: log.clone() }));
    let groups = adds.iter().zip(keep).filter(|(_, k)| *k).map(|(a, _)| vec![PartitionedFile::new(a.path.clone(), a.size as u64)]).collect::<Vec<_>>();
    let groups = if groups.is_empty() { vec![vec![]] } else {
        let n = session.config().target_partitions().max(1);
        let mut out: Vec<Vec<PartitionedFile>> = vec![];
        for (i, g) in groups.into_iter().enumerate() { if out.len() < n { out.push(g) } else { let k = i % n; out[k].extend(g) } }
        out
    };
    let config = FileScanConfig::new(url, schema.clone()).with_file_groups(groups).with_projection(projection.cloned()).with_limit(limit).with_statistics(Statistics::new_unknown(&schema));
    let mut exec = ParquetExecBuilder::new(config);
    if let Some(p) = predicate { exec = exec.with_predicate(p) }
    Ok(exec.build_arc())
}

/// Keeps the log store alive for as long as its address is the key of the registered store
#[derive(Debug)]
struct Kept { inner: Arc<dyn object_store::ObjectStore>, _log: LogStoreRef }
impl std::fmt::Display for Kept {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.inner) }
}
#[async_trait]
impl object_store::ObjectStore for Kept {
    async fn put_opts(&self, l: &object_store::path::Path, p: object_store::PutPayload, o: object_store::PutOptions) -> object_store::Result<object_store::PutResult> { self.inner.put_opts(l, p, o).await }
    async fn put_multipart_opts(&self, l: &object_store::path::Path, o: object_store::PutMultipartOpts) -> object_store::Result<Box<dyn object_store::MultipartUpload>> { self.inner.put_multipart_opts(l, o).await }
    async fn get_opts(&self, l: &object_store::path::Path, o: object_store::GetOptions) -> object_store::Result<object_store::GetResult> { self.inner.get_opts(l, o).await }
    async fn get_range(&self, l: &object_store::path::Path, r: std::ops::Range<usize>) -> object_store::Result<bytes::Bytes> { self.inner.get_range(l, r).await }
    async fn get_ranges(&self, l: &object_store::path::Path, r: &[std::ops::Range<usize>]) -> object_store::Result<Vec<bytes::Bytes>> { self.inner.get_ranges(l, r).await }
    async fn head(&self, l: &object_store::path::Path) -> object_store::Result<object_store::ObjectMeta> { self.inner.head(l).await }
    async fn delete(&self, l: &object_store::path::Path) -> object_store::Result<()> { self.inner.delete(l).await }
    fn list(&self, p: Option<&object_store::path::Path>) -> futures::stream::BoxStream<'_, object_store::Result<object_store::ObjectMeta>> { self.inner.list(p) }
    async fn list_with_delimiter(&self, p: Option<&object_store::path::Path>) -> object_store::Result<object_store::ListResult> { self.inner.list_with_delimiter(p).await }
    async fn copy(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> { self.inner.copy(a, b).await }
    async fn copy_if_not_exists(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> { self.inner.copy_if_not_exists(a, b).await }
}

#[async_trait]
impl TableProvider for DeltaTable {
    fn as_any(&self) -> &dyn Any { self }
    fn schema(&self) -> SchemaRef { self.snapshot().expect("a loaded table").schema.clone() }
    fn table_type(&self) -> TableType { TableType::Base }
    async fn scan(&self, session: &dyn Session, projection: Option<&Vec<usize>>, filters: &[Expr], limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        let s = self.snapshot()?;
        scan(session, &self.log_store, s.schema.clone(), &s.adds, projection, filters, limit).await
    }
    fn supports_filters_pushdown(&self, f: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; f.len()])
    }
}

#[derive(Debug, Clone, Default)]
pub struct DeltaScanConfig {}
#[derive(Debug, Clone)]
pub struct DeltaTableProvider { state: DeltaTableState, log: LogStoreRef, files: Option<Vec<Add>> }
impl DeltaTableProvider {
    pub fn try_new(state: DeltaTableState, log: LogStoreRef, _c: DeltaScanConfig) -> DeltaResult<Self> { Ok(Self { state, log, files: None }) }
    pub fn with_files(mut self, f: Vec<Add>) -> Self { self.files = Some(f); self }
}
#[async_trait]
impl TableProvider for DeltaTableProvider {
    fn as_any(&self) -> &dyn Any { self }
    fn schema(&self) -> SchemaRef { self.state.schema.clone() }
    fn table_type(&self) -> TableType { TableType::Base }
    async fn scan(&self, session: &dyn Session, projection: Option<&Vec<usize>>, filters: &[Expr], limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        scan(session, &self.log, self.state.schema.clone(), self.files.as_ref().unwrap_or(&self.state.adds), projection, filters, limit).await
    }
    fn supports_filters_pushdown(&self, f: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; f.len()])
    }
}

#[derive(Debug)]
pub struct DeltaTableFactory {}
#[async_trait]
impl TableProviderFactory for DeltaTableFactory {
    async fn create(&self, _: &dyn Session, cmd: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> {
        let url = url::Url::parse(&cmd.location).or_else(|_| url::Url::from_directory_path(&cmd.location).map_err(|_| DataFusionError::External(Box::new(DeltaTableError::InvalidTableLocation(cmd.location.clone())))))?;
        let (store, path) = object_store::parse_url(&url)?;
        let log = crate::logstore::default_logstore(Arc::new(object_store::prefix::PrefixStore::new(store, path)), &url, &Default::default());
        let mut t = DeltaTable::new(log, Default::default());
        t.load().await?;
        Ok(Arc::new(t))
    }
}
