pub mod file_writer {
    use crate::io::FileIO;
    use crate::spec::{DataFileBuilder, SchemaRef};
    use crate::{Error, ErrorKind, Result};
    use arrow::record_batch::RecordBatch;
    use location_generator::{DefaultFileNameGenerator, DefaultLocationGenerator};
    use parquet::arrow::ArrowWriter;
    use parquet::file::properties::WriterProperties;
    use std::future::Future;
    use std::sync::Arc;

    pub mod location_generator {
        use crate::spec::{DataFileFormat, TableMetadata};
        use crate::Result;

        #[derive(Clone, Debug)]
        pub struct DefaultLocationGenerator(pub(super) String);

        impl DefaultLocationGenerator {
            pub fn new(metadata: TableMetadata) -> Result<Self> {
                Ok(Self(format!("{}/data", metadata.location())))
            }
        }

        #[derive(Clone, Debug)]
        pub struct DefaultFileNameGenerator(pub(super) String);

        impl DefaultFileNameGenerator {
            pub fn new(prefix: String, suffix: Option<String>, _format: DataFileFormat) -> Self {
                Self(format!("{prefix}-00000{}.parquet", suffix.map(|s| format!("-{s}")).unwrap_or_default()))
            }
        }
    }

    pub trait FileWriterBuilder {
        type R: FileWriter;
        fn build(self) -> impl Future<Output = Result<Self::R>> + Send;
    }

    pub trait FileWriter {
        fn write(&mut self, batch: &RecordBatch) -> impl Future<Output = Result<()>> + Send;
        fn close(self) -> impl Future<Output = Result<Vec<DataFileBuilder>>> + Send;
    }

    pub struct ParquetWriterBuilder {
        props: WriterProperties,
        schema: SchemaRef,
        file_io: FileIO,
        path: String,
    }

    impl ParquetWriterBuilder {
        pub fn new(
            props: WriterProperties,
            schema: SchemaRef,
            file_io: FileIO,
            location: DefaultLocationGenerator,
            name: DefaultFileNameGenerator,
        ) -> Self {
            Self { props, schema, file_io, path: format!("{}/{}", location.0, name.0) }
        }
    }

    pub struct ParquetWriter {
        writer: ArrowWriter<Vec<u8>>,
        schema: arrow_schema::SchemaRef,
        file_io: FileIO,
        path: String,
        rows: u64,
    }

    fn fail(e: impl std::fmt::Display) -> Error {
        Error::new(ErrorKind::Unexpected, e.to_string())
    }

    impl FileWriterBuilder for ParquetWriterBuilder {
        type R = ParquetWriter;

        async fn build(self) -> Result<ParquetWriter> {
            let schema = Arc::new(crate::arrow::schema_to_arrow_schema(&self.schema)?);
            let writer = ArrowWriter::try_new(vec![], schema.clone(), Some(self.props)).map_err(fail)?;
            Ok(ParquetWriter { writer, schema, file_io: self.file_io, path: self.path, rows: 0 })
        }
    }

    impl FileWriter for ParquetWriter {
        async fn write(&mut self, batch: &RecordBatch) -> Result<()> {
            let columns = batch
                .columns()
                .iter()
                .zip(self.schema.fields())
                .map(|(c, f)| arrow::compute::cast(c, f.data_type()))
                .collect::<std::result::Result<Vec<_>, _>>()
                .map_err(fail)?;
            let batch = RecordBatch::try_new(self.schema.clone(), columns).map_err(fail)?;
            self.rows += batch.num_rows() as u64;
            self.writer.write(&batch).map_err(fail)
        }

        async fn close(self) -> Result<Vec<DataFileBuilder>> {
            let bytes = self.writer.into_inner().map_err(fail)?;
            let size = bytes.len() as u64;
            self.file_io.new_output(&self.path)?.write(bytes.into()).await?;
            Ok(vec![DataFileBuilder { file_path: self.path, record_count: self.rows, file_size_in_bytes: size, ..Default::default() }])
        }
    }
}
