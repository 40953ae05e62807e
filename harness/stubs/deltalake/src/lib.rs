//! A stand-in for the `deltalake` fork that /repo depends on and the sandbox lacks. It implements, over any
//! `object_store`, a versioned table: a log of JSON commits under `_delta_log`, each adding and removing Parquet files.
//! Its promises are the ones Seafowl relies on: commits are atomic and totally ordered, a scan returns exactly the
//! rows of the files that belong to the version (files that the given filter rules out by their statistics may be
//! left out), a vacuum deletes files that were removed from the table and nothing else.

pub use object_store::path::Path;
pub use parquet;

pub mod delta_datafusion;
pub mod errors;
pub mod kernel;
pub mod logstore;
pub mod operations;
pub mod protocol;
pub mod storage;
pub mod table;
pub mod writer;

pub use errors::{DeltaResult, DeltaTableError};
pub use table::{DeltaTable, DeltaTableConfig};
