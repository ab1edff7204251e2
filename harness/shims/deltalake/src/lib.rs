//! A small Delta Lake. Only what Seafowl uses of delta-rs is here, under the same names; the
//! protocol parts that Seafowl's behaviour rests on are real: a JSON log of actions committed with
//! put-if-absent, delete/delete conflict detection with retries for everything else, snapshots by
//! version and by commit time, file statistics and pruning, scans that cast files to the table's
//! schema, and vacuuming of expired tombstones.
pub mod delta_datafusion;
pub mod errors;
pub mod kernel;
pub mod logstore;
pub mod operations;
pub mod protocol;
pub mod storage;
pub mod table;
pub mod writer;

pub use datafusion::parquet;
pub use errors::DeltaTableError;
pub use object_store::path::Path;
pub use table::{DeltaTable, DeltaTableConfig};
pub type DeltaResult<T> = Result<T, DeltaTableError>;
