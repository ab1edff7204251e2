use crate::kernel::{Action, Add, Metadata, Protocol, StructField, StructType};
use crate::logstore::LogStoreRef;
use crate::protocol::{DeltaOperation, SaveMode};
use crate::table::DeltaTableState;
use crate::{DeltaResult, DeltaTable, DeltaTableError};
use futures::future::BoxFuture;
use std::future::IntoFuture;

pub mod transaction;

fn metadata(name: Option<String>, comment: Option<String>, fields: Vec<StructField>) -> Metadata {
    Metadata {
        id: uuid::Uuid::new_v4().to_string(),
        name,
        description: comment,
        schema_string: StructType::new(fields).to_json().to_string(),
        partition_columns: vec![],
        created_time: Some(chrono::Utc::now().timestamp_millis()),
    }
}
async fn create(log: LogStoreRef, meta: Metadata, op: DeltaOperation, adds: Vec<Add>) -> DeltaResult<DeltaTable> {
    let mut actions = vec![transaction::commit_info(&op), Action::Protocol(Protocol { min_reader_version: 1, min_writer_version: 2 }), Action::Metadata(meta)];
    actions.extend(adds.into_iter().map(Action::Add));
    match log.write_commit(0, &actions).await {
        Err(DeltaTableError::VersionAlreadyExists(_)) => return Err(DeltaTableError::Generic("A Delta Lake table already exists at that location.".into())),
        r => r?,
    }
    let mut t = DeltaTable::new(log, Default::default());
    t.load().await?;
    Ok(t)
}

pub mod create {
    use super::*;
    #[derive(Default)]
    pub struct CreateBuilder { log: Option<LogStoreRef>, name: Option<String>, comment: Option<String>, fields: Vec<StructField> }
    impl CreateBuilder {
        pub fn new() -> Self { Self::default() }
        pub fn with_log_store(mut self, l: LogStoreRef) -> Self { self.log = Some(l); self }
        pub fn with_table_name(mut self, n: impl Into<String>) -> Self { self.name = Some(n.into()); self }
        pub fn with_comment(mut self, n: impl Into<String>) -> Self { self.comment = Some(n.into()); self }
        pub fn with_columns(mut self, c: impl IntoIterator<Item = impl Into<StructField>>) -> Self { self.fields.extend(c.into_iter().map(Into::into)); self }
    }
    impl IntoFuture for CreateBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log = self.log.ok_or(DeltaTableError::NotInitialized)?;
                if log.is_delta_table_location().await? {
                    return Err(DeltaTableError::Generic("A Delta Lake table already exists at that location.".into()));
                }
                let op = DeltaOperation::Create { mode: SaveMode::ErrorIfExists, location: log.root_uri() };
                create(log, metadata(self.name, self.comment, self.fields), op, vec![]).await
            })
        }
    }
}

pub mod convert_to_delta {
    use super::*;
    use datafusion::parquet::arrow::async_reader::{AsyncFileReader, ParquetObjectReader};
    use datafusion::parquet::arrow::parquet_to_arrow_schema;
    use futures::TryStreamExt;
    #[derive(Default)]
    pub struct ConvertToDeltaBuilder { log: Option<LogStoreRef>, name: Option<String>, comment: Option<String> }
    impl ConvertToDeltaBuilder {
        pub fn new() -> Self { Self::default() }
        pub fn with_log_store(mut self, l: LogStoreRef) -> Self { self.log = Some(l); self }
        pub fn with_table_name(mut self, n: impl Into<String>) -> Self { self.name = Some(n.into()); self }
        pub fn with_comment(mut self, n: impl Into<String>) -> Self { self.comment = Some(n.into()); self }
        pub fn with_save_mode(self, _: SaveMode) -> Self { self }
    }
    impl IntoFuture for ConvertToDeltaBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log = self.log.ok_or(DeltaTableError::NotInitialized)?;
                if log.is_delta_table_location().await? {
                    return Err(DeltaTableError::Generic("The given location is already a delta table location".into()));
                }
                let store = log.object_store();
                let mut files: Vec<_> = store.list(None).try_collect().await?;
                files.retain(|f| f.location.extension() == Some("parquet"));
                files.sort_by(|a, b| a.location.cmp(&b.location));
                if files.is_empty() {
                    return Err(DeltaTableError::Generic("The given location doesn't have any parquet files".into()));
                }
                let (mut schemas, mut adds) = (vec![], vec![]);
                for f in files {
                    let m = ParquetObjectReader::new(store.clone(), f.clone()).get_metadata().await?;
                    let fm = m.file_metadata();
                    schemas.push(parquet_to_arrow_schema(fm.schema_descr(), fm.key_value_metadata())?);
                    adds.push(Add {
                        path: f.location.to_string(),
                        size: f.size as i64,
                        modification_time: f.last_modified.timestamp_millis(),
                        data_change: true,
                        stats: Some(crate::writer::stats_json(fm.schema_descr(), m.row_groups(), fm.num_rows())),
                        ..Default::default()
                    });
                }
                let schema = StructType::try_from(&arrow_schema::Schema::try_merge(schemas)?)?;
                create(log, metadata(self.name, self.comment, schema.fields), DeltaOperation::Convert, adds).await
            })
        }
    }
}

pub mod vacuum {
    use super::*;
    use futures::TryStreamExt;
    pub struct VacuumMetrics { pub dry_run: bool, pub files_deleted: Vec<String> }
    pub struct VacuumBuilder { log: LogStoreRef, state: DeltaTableState, retention: chrono::TimeDelta, enforce: bool }
    impl VacuumBuilder {
        pub fn new(log: LogStoreRef, state: DeltaTableState) -> Self { Self { log, state, retention: chrono::TimeDelta::days(7), enforce: true } }
        pub fn with_enforce_retention_duration(mut self, e: bool) -> Self { self.enforce = e; self }
        pub fn with_retention_period(mut self, d: chrono::TimeDelta) -> Self { self.retention = d; self }
    }
    impl IntoFuture for VacuumBuilder {
        type Output = DeltaResult<(DeltaTable, VacuumMetrics)>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                if self.enforce && self.retention < chrono::TimeDelta::days(7) {
                    return Err(DeltaTableError::Generic("Invalid retention period, minimum retention for vacuum is configured to be greater than 168 hours".into()));
                }
                let now = chrono::Utc::now().timestamp_millis();
                let store = self.log.object_store();
                let all: Vec<_> = store.list(None).try_collect().await?;
                let mut doomed = vec![];
                for f in all {
                    let p = f.location.to_string();
                    let live = self.state.adds.iter().any(|a| a.path == p);
                    let expired = self.state.tombstones.iter().any(|t| t.path == p && now - t.deletion_timestamp.unwrap_or(0) > self.retention.num_milliseconds());
                    if !live && expired && !p.starts_with('_') {
                        doomed.push(f.location);
                    }
                }
                let mut deleted = vec![];
                if !doomed.is_empty() {
                    // as delta-rs does, the log says that files went away, before and after
                    transaction::CommitBuilder::default().build(Some(&self.state), self.log.clone(), DeltaOperation::VacuumStart).await?;
                    for p in doomed {
                        store.delete(&p).await?;
                        deleted.push(p.to_string());
                    }
                    transaction::CommitBuilder::default().build(Some(&self.state), self.log.clone(), DeltaOperation::Vacuum).await?;
                }
                Ok((DeltaTable { state: Some(self.state), log_store: self.log }, VacuumMetrics { dry_run: false, files_deleted: deleted }))
            })
        }
    }
}
