use crate::errors::{DeltaResult, DeltaTableError};
use arrow_schema::{DataType, Field, TimeUnit};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;

pub type StructField = Field;

/// The columns of a table, in the types that the format knows
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StructType {
    pub fields: Vec<StructField>,
}
pub type Schema = StructType;

impl StructType {
    pub fn fields(&self) -> impl Iterator<Item = &StructField> {
        self.fields.iter()
    }

    pub fn arrow(&self) -> arrow_schema::Schema {
        arrow_schema::Schema::new(self.fields.clone())
    }
}

fn normal(data_type: &DataType) -> DeltaResult<DataType> {
    use DataType::*;
    let inner = |f: &Field| -> DeltaResult<Field> { Ok(f.clone().with_data_type(normal(f.data_type())?)) };
    Ok(match data_type {
        Utf8 | LargeUtf8 | Utf8View => Utf8,
        Int64 | UInt64 => Int64,
        Int32 | UInt32 => Int32,
        Int16 | UInt16 => Int16,
        Int8 | UInt8 => Int8,
        Float32 => Float32,
        Float64 => Float64,
        Boolean => Boolean,
        Binary | LargeBinary | BinaryView | FixedSizeBinary(_) => Binary,
        Decimal128(p, s) | Decimal256(p, s) if *p <= 38 && *s >= 0 => Decimal128(*p, *s),
        Date32 | Date64 => Date32,
        Timestamp(TimeUnit::Microsecond, None) => Timestamp(TimeUnit::Microsecond, None),
        Timestamp(TimeUnit::Microsecond, Some(tz)) if ["utc", "+00:00"].contains(&tz.to_lowercase().as_str()) => {
            Timestamp(TimeUnit::Microsecond, Some("UTC".into()))
        }
        List(f) | LargeList(f) | FixedSizeList(f, _) => List(std::sync::Arc::new(inner(f)?)),
        Struct(fs) => Struct(fs.iter().map(|f| inner(f)).collect::<DeltaResult<Vec<_>>>()?.into()),
        Dictionary(_, v) => normal(v)?,
        s => {
            return Err(DeltaTableError::Arrow {
                source: arrow_schema::ArrowError::SchemaError(format!("Invalid data type for Delta Lake: {s}")),
            })
        }
    })
}

impl TryFrom<&arrow_schema::Schema> for StructType {
    type Error = DeltaTableError;

    fn try_from(schema: &arrow_schema::Schema) -> Result<Self, DeltaTableError> {
        let fields = schema
            .fields()
            .iter()
            .map(|f| Ok(Field::new(f.name(), normal(f.data_type())?, f.is_nullable())))
            .collect::<DeltaResult<Vec<_>>>()?;
        Ok(StructType { fields })
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Stats {
    pub num_records: i64,
    pub min_values: HashMap<String, Value>,
    pub max_values: HashMap<String, Value>,
    pub null_count: HashMap<String, i64>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Add {
    pub path: String,
    pub partition_values: HashMap<String, Option<String>>,
    pub size: i64,
    pub modification_time: i64,
    pub data_change: bool,
    pub stats: Option<String>,
    pub tags: Option<HashMap<String, Option<String>>>,
}

impl Add {
    pub fn get_json_stats(&self) -> Result<Option<Stats>, serde_json::Error> {
        self.stats.as_ref().map(|s| serde_json::from_str(s)).transpose()
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DeletionVectorDescriptor {}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Remove {
    pub path: String,
    pub data_change: bool,
    pub deletion_timestamp: Option<i64>,
    pub extended_file_metadata: Option<bool>,
    pub partition_values: Option<HashMap<String, Option<String>>>,
    pub size: Option<i64>,
    pub tags: Option<HashMap<String, Option<String>>>,
    pub deletion_vector: Option<DeletionVectorDescriptor>,
    pub base_row_id: Option<i64>,
    pub default_row_commit_version: Option<i64>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CommitInfo {
    pub timestamp: Option<i64>,
    pub operation: Option<String>,
    #[serde(flatten, default)]
    pub info: HashMap<String, Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Metadata {
    pub id: String,
    pub name: Option<String>,
    pub description: Option<String>,
    pub schema: StructType,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum Action {
    Metadata(Metadata),
    Add(Add),
    Remove(Remove),
    CommitInfo(CommitInfo),
}

impl Action {
    pub fn commit_info(info: HashMap<String, Value>) -> Self {
        Self::CommitInfo(CommitInfo { info, ..Default::default() })
    }
}
