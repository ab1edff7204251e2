use datafusion::error::DataFusionError;
#[derive(thiserror::Error, Debug)]
pub enum DeltaTableError {
    #[error("Failed to read delta log object: {source}")]
    ObjectStore { #[from] source: object_store::Error },
    #[error("Arrow: {source}")]
    Arrow { #[from] source: arrow_schema::ArrowError },
    #[error("Parquet: {source}")]
    Parquet { #[from] source: datafusion::parquet::errors::ParquetError },
    #[error("Invalid JSON in log: {source}")]
    Json { #[from] source: serde_json::Error },
    #[error("Not a Delta table: {0}")]
    NotATable(String),
    #[error("Invalid table version: {0}")]
    InvalidVersion(i64),
    #[error("Invalid table location: {0}")]
    InvalidTableLocation(String),
    #[error("Table has not yet been initialized")]
    NotInitialized,
    #[error("Transaction failed: {0}")]
    Transaction(String),
    #[error("Delta transaction failed, version {0} already exists.")]
    VersionAlreadyExists(i64),
    #[error("{0}")]
    Generic(String),
}
impl From<DeltaTableError> for DataFusionError {
    fn from(e: DeltaTableError) -> Self {
        match e {
            DeltaTableError::ObjectStore { source } => DataFusionError::ObjectStore(source),
            DeltaTableError::Arrow { source } => DataFusionError::ArrowError(source, None),
            e => DataFusionError::External(Box::new(e)),
        }
    }
}
