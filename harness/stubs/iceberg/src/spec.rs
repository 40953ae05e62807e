use crate::io::{FileIO, OutputFile};
use crate::{Error, ErrorKind, Result};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PrimitiveType {
    Boolean,
    Int,
    Long,
    Float,
    Double,
    Decimal { precision: u32, scale: u32 },
    Date,
    Time,
    Timestamp,
    Timestamptz,
    TimestampNs,
    String,
    Binary,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Type {
    Primitive(PrimitiveType),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct NestedField {
    pub id: i32,
    pub name: String,
    pub required: bool,
    pub field_type: Box<Type>,
}
pub type NestedFieldRef = Arc<NestedField>;

impl NestedField {
    pub fn new(id: i32, name: impl ToString, field_type: Type, required: bool) -> Self {
        Self { id, name: name.to_string(), required, field_type: Box::new(field_type) }
    }
    pub fn optional(id: i32, name: impl ToString, field_type: Type) -> Self {
        Self::new(id, name, field_type, false)
    }
    pub fn required(id: i32, name: impl ToString, field_type: Type) -> Self {
        Self::new(id, name, field_type, true)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct StructType {
    fields: Vec<NestedFieldRef>,
}

impl StructType {
    pub fn fields(&self) -> &[NestedFieldRef] {
        &self.fields
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Schema {
    schema_id: i32,
    r#struct: StructType,
}
pub type SchemaRef = Arc<Schema>;

#[derive(Default)]
pub struct SchemaBuilder {
    id: i32,
    fields: Vec<NestedFieldRef>,
}

impl SchemaBuilder {
    pub fn with_fields(mut self, fields: impl IntoIterator<Item = NestedFieldRef>) -> Self {
        self.fields.extend(fields);
        self
    }
    pub fn with_schema_id(mut self, id: i32) -> Self {
        self.id = id;
        self
    }
    pub fn build(self) -> Result<Schema> {
        Ok(Schema { schema_id: self.id, r#struct: StructType { fields: self.fields } })
    }
}

impl Schema {
    pub fn builder() -> SchemaBuilder {
        SchemaBuilder::default()
    }
    pub fn as_struct(&self) -> &StructType {
        &self.r#struct
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DataContentType {
    Data,
    PositionDeletes,
    EqualityDeletes,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DataFileFormat {
    Avro,
    Orc,
    Parquet,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FormatVersion {
    V1,
    V2,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ManifestContentType {
    Data,
    Deletes,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ManifestStatus {
    Existing,
    Added,
    Deleted,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Operation {
    Append,
    Replace,
    Overwrite,
    Delete,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Summary {
    pub operation: Operation,
    pub additional_properties: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Struct {}

impl Struct {
    pub fn empty() -> Self {
        Self {}
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DataFile {
    pub(crate) content: DataContentType,
    pub(crate) file_path: String,
    pub(crate) record_count: u64,
    pub(crate) file_size_in_bytes: u64,
}

impl DataFile {
    pub fn file_path(&self) -> &str {
        &self.file_path
    }
    pub fn record_count(&self) -> u64 {
        self.record_count
    }
}

#[derive(Clone, Debug, Default)]
pub struct DataFileBuilder {
    pub(crate) content: Option<DataContentType>,
    pub(crate) partition: Option<Struct>,
    pub(crate) file_path: String,
    pub(crate) record_count: u64,
    pub(crate) file_size_in_bytes: u64,
}

impl DataFileBuilder {
    pub fn content(&mut self, content: DataContentType) -> &mut Self {
        self.content = Some(content);
        self
    }
    pub fn partition(&mut self, partition: Struct) -> &mut Self {
        self.partition = Some(partition);
        self
    }
    pub fn build(&self) -> Result<DataFile> {
        let missing = |what: &str| Error::new(ErrorKind::DataInvalid, format!("{what} is not set"));
        self.partition.clone().ok_or_else(|| missing("partition"))?;
        Ok(DataFile {
            content: self.content.ok_or_else(|| missing("content"))?,
            file_path: self.file_path.clone(),
            record_count: self.record_count,
            file_size_in_bytes: self.file_size_in_bytes,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PartitionSpec {
    spec_id: i32,
}

pub struct PartitionSpecBuilder(PartitionSpec);

impl PartitionSpec {
    pub fn builder(_schema: impl Into<SchemaRef>) -> PartitionSpecBuilder {
        PartitionSpecBuilder(PartitionSpec { spec_id: 0 })
    }
}

impl PartitionSpecBuilder {
    pub fn with_spec_id(mut self, id: i32) -> Self {
        self.0.spec_id = id;
        self
    }
    pub fn build(self) -> Result<PartitionSpec> {
        Ok(self.0)
    }
}

macro_rules! builder {
    ($name:ident, $builder:ident, { $($field:ident : $type:ty),* }) => {
        #[derive(Clone, Debug, Default)]
        pub struct $builder { $($field: Option<$type>),* }
        impl $builder {
            $(pub fn $field(mut self, v: impl Into<$type>) -> Self { self.$field = Some(v.into()); self })*
            pub fn build(self) -> $name { $name { $($field: self.$field.expect(concat!(stringify!($field), " is set"))),* } }
        }
        impl $name { pub fn builder() -> $builder { $builder::default() } }
    };
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ManifestMetadata {
    pub schema_id: i32,
    pub schema: SchemaRef,
    pub partition_spec: PartitionSpec,
    pub content: ManifestContentType,
    pub format_version: FormatVersion,
}
builder!(ManifestMetadata, ManifestMetadataBuilder, { schema_id: i32, schema: SchemaRef, partition_spec: PartitionSpec, content: ManifestContentType, format_version: FormatVersion });

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ManifestEntry {
    pub status: ManifestStatus,
    pub snapshot_id: i64,
    pub data_file: DataFile,
}
builder!(ManifestEntry, ManifestEntryBuilder, { status: ManifestStatus, snapshot_id: i64, data_file: DataFile });

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Manifest {
    pub metadata: ManifestMetadata,
    pub entries: Vec<ManifestEntry>,
}

impl Manifest {
    pub fn new(metadata: ManifestMetadata, entries: Vec<ManifestEntry>) -> Self {
        Self { metadata, entries }
    }
}

pub struct ManifestWriter {
    output: OutputFile,
    snapshot_id: i64,
}

impl ManifestWriter {
    pub fn new(output: OutputFile, snapshot_id: i64, _key_metadata: Vec<u8>) -> Self {
        Self { output, snapshot_id }
    }

    pub async fn write(self, manifest: Manifest) -> Result<ManifestFile> {
        let bytes = serde_json::to_vec(&manifest).map_err(bad)?;
        self.output.write(bytes.into()).await?;
        Ok(ManifestFile { manifest_path: self.output.location().to_string(), added_snapshot_id: self.snapshot_id, sequence_number: -1 })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ManifestFile {
    pub manifest_path: String,
    pub added_snapshot_id: i64,
    pub sequence_number: i64,
}

pub struct ManifestListWriter {
    output: OutputFile,
    snapshot_id: i64,
    sequence_number: i64,
    entries: Vec<ManifestFile>,
}

impl ManifestListWriter {
    pub fn v2(output: OutputFile, snapshot_id: i64, _parent: Option<i64>, sequence_number: i64) -> Self {
        Self { output, snapshot_id, sequence_number, entries: vec![] }
    }

    pub fn add_manifests(&mut self, manifests: impl Iterator<Item = ManifestFile>) -> Result<()> {
        for mut m in manifests {
            if m.sequence_number < 0 {
                // only the manifest of the new snapshot may be without a number
                if m.added_snapshot_id != self.snapshot_id {
                    return Err(Error::new(ErrorKind::DataInvalid, "Found unassigned sequence number for a manifest from another snapshot"));
                }
                m.sequence_number = self.sequence_number;
            }
            self.entries.push(m);
        }
        Ok(())
    }

    pub async fn close(self) -> Result<()> {
        self.output.write(serde_json::to_vec(&self.entries).map_err(bad)?.into()).await
    }
}

pub struct ManifestList(Vec<ManifestFile>);

impl ManifestList {
    pub fn consume_entries(self) -> Vec<ManifestFile> {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Snapshot {
    snapshot_id: i64,
    schema_id: i32,
    manifest_list: String,
    sequence_number: i64,
    timestamp_ms: i64,
    summary: Summary,
}
pub type SnapshotRef = Arc<Snapshot>;

#[derive(Default)]
pub struct SnapshotBuilder {
    snapshot_id: Option<i64>,
    schema_id: Option<i32>,
    manifest_list: Option<String>,
    sequence_number: Option<i64>,
    timestamp_ms: Option<i64>,
    summary: Option<Summary>,
}

impl SnapshotBuilder {
    pub fn with_snapshot_id(mut self, v: i64) -> Self {
        self.snapshot_id = Some(v);
        self
    }
    pub fn with_schema_id(mut self, v: i32) -> Self {
        self.schema_id = Some(v);
        self
    }
    pub fn with_manifest_list(mut self, v: impl ToString) -> Self {
        self.manifest_list = Some(v.to_string());
        self
    }
    pub fn with_sequence_number(mut self, v: i64) -> Self {
        self.sequence_number = Some(v);
        self
    }
    pub fn with_timestamp_ms(mut self, v: i64) -> Self {
        self.timestamp_ms = Some(v);
        self
    }
    pub fn with_summary(mut self, v: Summary) -> Self {
        self.summary = Some(v);
        self
    }
    pub fn build(self) -> Snapshot {
        Snapshot {
            snapshot_id: self.snapshot_id.unwrap(),
            schema_id: self.schema_id.unwrap_or(0),
            manifest_list: self.manifest_list.unwrap(),
            sequence_number: self.sequence_number.unwrap(),
            timestamp_ms: self.timestamp_ms.unwrap(),
            summary: self.summary.unwrap(),
        }
    }
}

impl Snapshot {
    pub fn builder() -> SnapshotBuilder {
        SnapshotBuilder::default()
    }
    pub fn snapshot_id(&self) -> i64 {
        self.snapshot_id
    }
    pub fn manifest_list(&self) -> &str {
        &self.manifest_list
    }
    pub async fn load_manifest_list(&self, file_io: &FileIO, _metadata: &TableMetadata) -> Result<ManifestList> {
        let bytes = file_io.new_input(&self.manifest_list)?.read().await?;
        Ok(ManifestList(serde_json::from_slice(&bytes).map_err(bad)?))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SnapshotRetention {
    Branch { min_snapshots_to_keep: Option<i32>, max_snapshot_age_ms: Option<i64>, max_ref_age_ms: Option<i64> },
    Tag { max_ref_age_ms: Option<i64> },
}

impl SnapshotRetention {
    pub fn branch(min_snapshots_to_keep: Option<i32>, max_snapshot_age_ms: Option<i64>, max_ref_age_ms: Option<i64>) -> Self {
        Self::Branch { min_snapshots_to_keep, max_snapshot_age_ms, max_ref_age_ms }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SnapshotReference {
    pub snapshot_id: i64,
    pub retention: SnapshotRetention,
}

impl SnapshotReference {
    pub fn new(snapshot_id: i64, retention: SnapshotRetention) -> Self {
        Self { snapshot_id, retention }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TableCreation {
    name: String,
    schema: Option<Schema>,
    location: Option<String>,
}

#[derive(Default)]
pub struct TableCreationBuilder(TableCreation);

impl TableCreation {
    pub fn builder() -> TableCreationBuilder {
        TableCreationBuilder::default()
    }
}

impl TableCreationBuilder {
    pub fn name(mut self, v: String) -> Self {
        self.0.name = v;
        self
    }
    pub fn schema(mut self, v: Schema) -> Self {
        self.0.schema = Some(v);
        self
    }
    pub fn location(mut self, v: String) -> Self {
        self.0.location = Some(v);
        self
    }
    pub fn build(self) -> TableCreation {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TableMetadata {
    table_uuid: String,
    location: String,
    last_sequence_number: i64,
    schema: SchemaRef,
    snapshots: Vec<SnapshotRef>,
    refs: HashMap<String, SnapshotReference>,
    metadata_log: Vec<String>,
}

impl TableMetadata {
    pub fn location(&self) -> &str {
        &self.location
    }
    pub fn last_sequence_number(&self) -> i64 {
        self.last_sequence_number
    }
    pub fn current_schema(&self) -> &SchemaRef {
        &self.schema
    }
    pub fn current_snapshot(&self) -> Option<&SnapshotRef> {
        let id = self.refs.get("main")?.snapshot_id;
        self.snapshots.iter().find(|s| s.snapshot_id == id)
    }
    pub fn snapshots(&self) -> &[SnapshotRef] {
        &self.snapshots
    }
}

pub struct TableMetadataBuilder(TableMetadata);
pub struct TableMetadataBuildResult {
    pub metadata: TableMetadata,
}

impl From<TableMetadataBuildResult> for TableMetadata {
    fn from(r: TableMetadataBuildResult) -> Self {
        r.metadata
    }
}

impl TableMetadataBuilder {
    pub fn from_table_creation(creation: TableCreation) -> Result<Self> {
        let missing = |w: &str| Error::new(ErrorKind::DataInvalid, format!("Can't create table without {w}"));
        Ok(Self(TableMetadata {
            table_uuid: uuid::Uuid::new_v4().to_string(),
            location: creation.location.ok_or_else(|| missing("location"))?.trim_end_matches('/').to_string(),
            last_sequence_number: 0,
            schema: Arc::new(creation.schema.ok_or_else(|| missing("schema"))?),
            snapshots: vec![],
            refs: HashMap::new(),
            metadata_log: vec![],
        }))
    }

    pub fn new_from_metadata(previous: TableMetadata, location: Option<String>) -> Self {
        let mut metadata = previous;
        metadata.metadata_log.extend(location);
        Self(metadata)
    }

    pub fn add_snapshot(mut self, snapshot: Snapshot) -> Result<Self> {
        if self.0.snapshots.iter().any(|s| s.snapshot_id == snapshot.snapshot_id) {
            return Err(Error::new(ErrorKind::DataInvalid, "Snapshot already exists"));
        }
        if snapshot.sequence_number <= self.0.last_sequence_number {
            return Err(Error::new(ErrorKind::DataInvalid, "Cannot add snapshot with an old sequence number"));
        }
        self.0.last_sequence_number = snapshot.sequence_number;
        self.0.snapshots.push(Arc::new(snapshot));
        Ok(self)
    }

    pub fn set_ref(mut self, name: &str, reference: SnapshotReference) -> Result<Self> {
        if !self.0.snapshots.iter().any(|s| s.snapshot_id == reference.snapshot_id) {
            return Err(Error::new(ErrorKind::DataInvalid, "Cannot set a reference to an unknown snapshot"));
        }
        self.0.refs.insert(name.to_string(), reference);
        Ok(self)
    }

    pub fn build(self) -> Result<TableMetadataBuildResult> {
        Ok(TableMetadataBuildResult { metadata: self.0 })
    }
}

pub(crate) fn bad(e: serde_json::Error) -> Error {
    Error::new(ErrorKind::DataInvalid, e.to_string())
}
