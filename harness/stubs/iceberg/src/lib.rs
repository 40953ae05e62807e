//! A stand-in for the `iceberg` fork that /repo depends on and the sandbox lacks: table metadata, manifests (as JSON),
//! Parquet data files, and a small file abstraction over memory or a local directory. Writing a file "exclusively"
//! fails if the file exists, and is atomic.
use std::fmt;

pub mod arrow;
pub mod io;
pub mod spec;
pub mod table;
pub mod writer;

pub use spec::TableCreation;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorKind {
    Unexpected,
    DataInvalid,
    FeatureUnsupported,
}

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    message: String,
    source: Option<opendal::Error>,
}

impl Error {
    pub fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Self { kind, message: message.into(), source: None }
    }

    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}

impl From<opendal::Error> for Error {
    fn from(e: opendal::Error) -> Self {
        Self { kind: ErrorKind::Unexpected, message: "Failure in doing io operation".into(), source: Some(e) }
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} => {}", self.kind, self.message)
    }
}

impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| e as _)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TableIdent(pub Vec<String>);

impl TableIdent {
    pub fn from_strs(iter: impl IntoIterator<Item = impl ToString>) -> Result<Self> {
        Ok(Self(iter.into_iter().map(|s| s.to_string()).collect()))
    }
}
