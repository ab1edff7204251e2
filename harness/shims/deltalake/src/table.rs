use crate::kernel::{Action, Add, CommitInfo, Metadata, Remove, StructType};
use crate::logstore::{LogStore, LogStoreRef};
use crate::{DeltaResult, DeltaTableError};
use arrow::array::{ArrayRef, BooleanArray, UInt64Array};
use arrow_schema::{DataType, Schema as ArrowSchema, SchemaRef, TimeUnit};
use chrono::{DateTime, Utc};
use datafusion::physical_optimizer::pruning::PruningStatistics;
use datafusion_common::{Column, ScalarValue};
use object_store::ObjectStore;
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::sync::Arc;

#[derive(Debug, Clone, Default)]
pub struct DeltaTableConfig {}

/// What the log says up to some version
#[derive(Debug, Clone)]
pub struct DeltaTableState {
    pub(crate) version: i64,
    pub(crate) metadata: Metadata,
    pub(crate) schema: SchemaRef,
    pub(crate) adds: Vec<Add>,
    pub(crate) tombstones: Vec<Remove>,
    pub(crate) commits: Vec<CommitInfo>,
}

impl DeltaTableState {
    pub(crate) async fn at(log: &dyn LogStore, version: Option<i64>) -> DeltaResult<Self> {
        let versions = log.versions().await?;
        let last = match version {
            None => *versions.keys().last().ok_or_else(|| DeltaTableError::NotATable(format!("no log files in {}", log.root_uri())))?,
            Some(v) if versions.contains_key(&v) => v,
            Some(v) => return Err(DeltaTableError::InvalidVersion(v)),
        };
        let mut adds: BTreeMap<usize, Add> = BTreeMap::new();
        let mut tombstones: Vec<Remove> = vec![];
        let mut metadata = None;
        let mut commits = vec![];
        let mut n = 0;
        for v in 0..=last {
            let actions = log.read_commit(v).await?;
            // the additions and removals of one commit take effect together
            for a in &actions {
                if let Action::Remove(r) = a {
                    adds.retain(|_, x| x.path != r.path);
                    tombstones.retain(|t| t.path != r.path);
                    tombstones.push(r.clone());
                }
            }
            for a in actions {
                match a {
                    Action::Add(a) => {
                        tombstones.retain(|t| t.path != a.path);
                        adds.retain(|_, x| x.path != a.path);
                        n += 1;
                        adds.insert(n, a);
                    }
                    Action::Metadata(m) => metadata = Some(m),
                    Action::CommitInfo(c) => commits.push(c),
                    _ => {}
                }
            }
        }
        let metadata = metadata.ok_or_else(|| DeltaTableError::Generic("no metadata in the log".into()))?;
        let schema = StructType::from_json(&serde_json::from_str(&metadata.schema_string)?)?;
        // the latest files come first, as in delta-rs
        let adds = adds.into_values().rev().collect();
        Ok(Self { version: last, metadata, schema: Arc::new(ArrowSchema::try_from(&schema)?), adds, tombstones, commits })
    }
    pub fn file_actions(&self) -> DeltaResult<Vec<Add>> {
        Ok(self.adds.clone())
    }
    pub fn version(&self) -> i64 {
        self.version
    }
    pub fn arrow_schema(&self) -> DeltaResult<SchemaRef> {
        Ok(self.schema.clone())
    }
}

/// A statistic as a value of the column's type, if it says something exact
pub(crate) fn stat_value(v: &Value, t: &DataType) -> Option<ScalarValue> {
    let s = match v {
        Value::String(s) => s.clone(),
        Value::Number(n) => n.to_string(),
        Value::Bool(b) => b.to_string(),
        _ => return None,
    };
    Some(match t {
        DataType::Utf8 => ScalarValue::Utf8(Some(s)),
        DataType::Int8 => ScalarValue::Int8(Some(s.parse().ok()?)),
        DataType::Int16 => ScalarValue::Int16(Some(s.parse().ok()?)),
        DataType::Int32 => ScalarValue::Int32(Some(s.parse().ok()?)),
        DataType::Int64 => ScalarValue::Int64(Some(s.parse().ok()?)),
        DataType::Float32 => ScalarValue::Float32(Some(s.parse().ok()?)),
        DataType::Float64 => ScalarValue::Float64(Some(s.parse().ok()?)),
        DataType::Boolean => ScalarValue::Boolean(Some(s.parse().ok()?)),
        DataType::Date32 => ScalarValue::Date32(Some((s.parse::<chrono::NaiveDate>().ok()? - chrono::NaiveDate::from_ymd_opt(1970, 1, 1)?).num_days() as i32)),
        DataType::Timestamp(TimeUnit::Microsecond, tz) => ScalarValue::TimestampMicrosecond(
            Some(chrono::NaiveDateTime::parse_from_str(s.trim_end_matches('Z'), "%Y-%m-%dT%H:%M:%S%.f").ok()?.and_utc().timestamp_micros()), tz.clone()),
        _ => return None,
    })
}

pub(crate) struct Stats<'a> {
    pub adds: &'a [Add],
    pub schema: SchemaRef,
}
impl Stats<'_> {
    fn of(&self, a: &Add) -> Value {
        a.stats.as_deref().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null)
    }
    fn bound(&self, column: &Column, which: &str) -> Option<ArrayRef> {
        let f = self.schema.field_with_name(&column.name).ok()?;
        let null = ScalarValue::try_from(f.data_type()).ok()?;
        ScalarValue::iter_to_array(self.adds.iter().map(|a| stat_value(&self.of(a)[which][&column.name], f.data_type()).unwrap_or(null.clone()))).ok()
    }
}
impl PruningStatistics for Stats<'_> {
    fn min_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bound(column, "minValues")
    }
    fn max_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bound(column, "maxValues")
    }
    fn num_containers(&self) -> usize {
        self.adds.len()
    }
    fn null_counts(&self, column: &Column) -> Option<ArrayRef> {
        self.schema.field_with_name(&column.name).ok()?;
        Some(Arc::new(UInt64Array::from_iter(self.adds.iter().map(|a| self.of(a)["nullCount"][&column.name].as_u64()))))
    }
    fn row_counts(&self, _column: &Column) -> Option<ArrayRef> {
        Some(Arc::new(UInt64Array::from_iter(self.adds.iter().map(|a| self.of(a)["numRecords"].as_u64()))))
    }
    fn contained(&self, _: &Column, _: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}
impl PruningStatistics for DeltaTableState {
    fn min_values(&self, c: &Column) -> Option<ArrayRef> {
        Stats { adds: &self.adds, schema: self.schema.clone() }.min_values(c)
    }
    fn max_values(&self, c: &Column) -> Option<ArrayRef> {
        Stats { adds: &self.adds, schema: self.schema.clone() }.max_values(c)
    }
    fn num_containers(&self) -> usize {
        self.adds.len()
    }
    fn null_counts(&self, c: &Column) -> Option<ArrayRef> {
        Stats { adds: &self.adds, schema: self.schema.clone() }.null_counts(c)
    }
    fn row_counts(&self, c: &Column) -> Option<ArrayRef> {
        Stats { adds: &self.adds, schema: self.schema.clone() }.row_counts(c)
    }
    fn contained(&self, _: &Column, _: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}

#[derive(Clone)]
pub struct DeltaTable {
    pub(crate) state: Option<DeltaTableState>,
    pub(crate) log_store: LogStoreRef,
}
impl fmt::Debug for DeltaTable {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DeltaTable <{}>", self.table_uri())
    }
}
impl fmt::Display for DeltaTable {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DeltaTable({})\n\tversion: {}", self.table_uri(), self.version())
    }
}
impl DeltaTable {
    pub fn new(log_store: LogStoreRef, _config: DeltaTableConfig) -> Self {
        Self { state: None, log_store }
    }
    pub fn version(&self) -> i64 {
        self.state.as_ref().map(|s| s.version).unwrap_or(-1)
    }
    pub fn snapshot(&self) -> DeltaResult<&DeltaTableState> {
        self.state.as_ref().ok_or(DeltaTableError::NotInitialized)
    }
    pub fn log_store(&self) -> LogStoreRef {
        self.log_store.clone()
    }
    pub fn object_store(&self) -> Arc<dyn ObjectStore> {
        self.log_store.object_store()
    }
    pub fn table_uri(&self) -> String {
        self.log_store.root_uri()
    }
    pub fn get_files_count(&self) -> usize {
        self.state.as_ref().map(|s| s.adds.len()).unwrap_or(0)
    }
    pub async fn load(&mut self) -> DeltaResult<()> {
        self.state = Some(DeltaTableState::at(self.log_store.as_ref(), None).await?);
        Ok(())
    }
    pub async fn load_version(&mut self, v: i64) -> DeltaResult<()> {
        self.state = Some(DeltaTableState::at(self.log_store.as_ref(), Some(v)).await?);
        Ok(())
    }
    /// The last version committed at or before the time, in milliseconds; the first one if there is none
    pub async fn load_with_datetime(&mut self, t: DateTime<Utc>) -> DeltaResult<()> {
        let versions = self.log_store.versions().await?;
        let first = *versions.keys().next().ok_or_else(|| DeltaTableError::NotATable(self.table_uri()))?;
        let want = t.timestamp_millis();
        let v = versions.iter().rev().find(|(_, m)| m.last_modified.timestamp_millis() <= want).map(|(v, _)| *v).unwrap_or(first);
        self.load_version(v).await
    }
    /// Newest first
    pub async fn history(&self, limit: Option<usize>) -> DeltaResult<Vec<CommitInfo>> {
        let mut c = self.snapshot()?.commits.clone();
        c.reverse();
        c.truncate(limit.unwrap_or(usize::MAX));
        Ok(c)
    }
}
