use crate::io::FileIO;
use crate::spec::{bad, Manifest, ManifestStatus, TableMetadata};
use crate::{Result, TableIdent};
use arrow::record_batch::RecordBatch;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;

#[derive(Clone, Debug)]
pub struct Table {
    identifier: TableIdent,
    metadata: TableMetadata,
    file_io: FileIO,
}

impl Table {
    pub fn metadata(&self) -> &TableMetadata {
        &self.metadata
    }

    pub fn file_io(&self) -> &FileIO {
        &self.file_io
    }

    pub fn identifier(&self) -> &TableIdent {
        &self.identifier
    }

    /// All rows of the current snapshot
    pub async fn rows(&self) -> Result<Vec<RecordBatch>> {
        let mut out = vec![];
        let Some(snapshot) = self.metadata.current_snapshot() else { return Ok(out) };
        for file in snapshot.load_manifest_list(&self.file_io, &self.metadata).await?.consume_entries() {
            let bytes = self.file_io.new_input(&file.manifest_path)?.read().await?;
            let manifest: Manifest = serde_json::from_slice(&bytes).map_err(bad)?;
            for entry in manifest.entries.iter().filter(|e| e.status != ManifestStatus::Deleted) {
                let data = self.file_io.new_input(entry.data_file.file_path())?.read().await?;
                let fail = |e: String| crate::Error::new(crate::ErrorKind::DataInvalid, e);
                let reader = ParquetRecordBatchReaderBuilder::try_new(data).and_then(|b| b.build()).map_err(|e| fail(e.to_string()))?;
                for batch in reader {
                    out.push(batch.map_err(|e| fail(e.to_string()))?);
                }
            }
        }
        Ok(out)
    }
}

pub struct StaticTable(Table);

impl StaticTable {
    pub async fn from_metadata_file(path: &str, identifier: TableIdent, file_io: FileIO) -> Result<Self> {
        let bytes = file_io.new_input(path)?.read().await?;
        let metadata = serde_json::from_slice(&bytes).map_err(bad)?;
        Ok(Self(Table { identifier, metadata, file_io }))
    }

    pub fn into_table(self) -> Table {
        self.0
    }
}
