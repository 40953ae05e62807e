use datafusion::error::DataFusionError;

pub type DeltaResult<T, E = DeltaTableError> = Result<T, E>;

#[derive(thiserror::Error, Debug)]
pub enum DeltaTableError {
    #[error("Not a Delta table: {0}")]
    NotATable(String),
    #[error("Invalid table location: {0}")]
    InvalidTableLocation(String),
    #[error("Table has not yet been initialized")]
    NotInitialized,
    #[error("Invalid table version: {0}")]
    InvalidVersion(i64),
    #[error("{0}")]
    Generic(String),
    #[error("Transaction failed: {0}")]
    Transaction(String),
    #[error("Failed to read delta log object: {source}")]
    ObjectStore {
        #[from]
        source: object_store::Error,
    },
    #[error("Failed to parse parquet: {source}")]
    Parquet {
        #[from]
        source: parquet::errors::ParquetError,
    },
    #[error("Schema error: {source}")]
    Arrow {
        #[from]
        source: arrow_schema::ArrowError,
    },
    #[error("Invalid JSON in log record: {source}")]
    Json {
        #[from]
        source: serde_json::Error,
    },
}

impl From<DeltaTableError> for DataFusionError {
    fn from(err: DeltaTableError) -> Self {
        match err {
            DeltaTableError::Arrow { source } => DataFusionError::ArrowError(source, None),
            DeltaTableError::ObjectStore { source } => DataFusionError::ObjectStore(source),
            DeltaTableError::Parquet { source } => DataFusionError::ParquetError(source),
            e => DataFusionError::External(Box::new(e)),
        }
    }
}

impl From<DataFusionError> for DeltaTableError {
    fn from(err: DataFusionError) -> Self {
        DeltaTableError::Generic(err.to_string())
    }
}
