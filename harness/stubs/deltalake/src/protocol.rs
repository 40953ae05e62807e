#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SaveMode {
    Append,
    Overwrite,
    ErrorIfExists,
    Ignore,
}

#[derive(Clone, Debug)]
pub enum DeltaOperation {
    Create,
    Convert,
    Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> },
    Delete { predicate: Option<String> },
}

impl DeltaOperation {
    pub fn name(&self) -> &'static str {
        match self {
            DeltaOperation::Create => "CREATE TABLE",
            DeltaOperation::Convert => "CONVERT",
            DeltaOperation::Write { .. } => "WRITE",
            DeltaOperation::Delete { .. } => "DELETE",
        }
    }
}
