use crate::spec::{NestedField, PrimitiveType, Schema, Type};
use crate::{Error, ErrorKind, Result};
use arrow_schema::{DataType, Field, TimeUnit};
use std::sync::Arc;

const FIELD_ID: &str = "PARQUET:field_id";

fn to_type(d: &DataType) -> Result<Type> {
    use DataType::*;
    Ok(Type::Primitive(match d {
        Boolean => PrimitiveType::Boolean,
        Int8 | Int16 | Int32 => PrimitiveType::Int,
        Int64 => PrimitiveType::Long,
        Float32 => PrimitiveType::Float,
        Float64 => PrimitiveType::Double,
        Utf8 | LargeUtf8 => PrimitiveType::String,
        Binary | LargeBinary => PrimitiveType::Binary,
        Date32 => PrimitiveType::Date,
        Time64(TimeUnit::Microsecond) => PrimitiveType::Time,
        Timestamp(TimeUnit::Microsecond, None) => PrimitiveType::Timestamp,
        Timestamp(TimeUnit::Nanosecond, None) => PrimitiveType::TimestampNs,
        Timestamp(TimeUnit::Microsecond, Some(_)) => PrimitiveType::Timestamptz,
        Decimal128(p, s) if *s >= 0 => PrimitiveType::Decimal { precision: *p as u32, scale: *s as u32 },
        other => return Err(Error::new(ErrorKind::DataInvalid, format!("Unsupported Arrow data type: {other}"))),
    }))
}

pub fn arrow_schema_to_schema(schema: &arrow_schema::Schema) -> Result<Schema> {
    let fields = schema
        .fields()
        .iter()
        .map(|f| {
            let id = f
                .metadata()
                .get(FIELD_ID)
                .and_then(|v| v.parse::<i32>().ok())
                .ok_or_else(|| Error::new(ErrorKind::DataInvalid, "Field id not found in metadata"))?;
            Ok(Arc::new(NestedField::new(id, f.name(), to_type(f.data_type())?, !f.is_nullable())))
        })
        .collect::<Result<Vec<_>>>()?;
    Schema::builder().with_fields(fields).build()
}

pub fn schema_to_arrow_schema(schema: &Schema) -> Result<arrow_schema::Schema> {
    use PrimitiveType::*;
    Ok(arrow_schema::Schema::new(
        schema
            .as_struct()
            .fields()
            .iter()
            .map(|f| {
                let Type::Primitive(p) = f.field_type.as_ref();
                let d = match p {
                    Boolean => DataType::Boolean,
                    Int => DataType::Int32,
                    Long => DataType::Int64,
                    Float => DataType::Float32,
                    Double => DataType::Float64,
                    String => DataType::Utf8,
                    Binary => DataType::LargeBinary,
                    Date => DataType::Date32,
                    Time => DataType::Time64(TimeUnit::Microsecond),
                    Timestamp => DataType::Timestamp(TimeUnit::Microsecond, None),
                    TimestampNs => DataType::Timestamp(TimeUnit::Nanosecond, None),
                    Timestamptz => DataType::Timestamp(TimeUnit::Microsecond, Some("+00:00".into())),
                    Decimal { precision, scale } => DataType::Decimal128(*precision as u8, *scale as i8),
                };
                Field::new(&f.name, d, !f.required).with_metadata([(FIELD_ID.to_string(), f.id.to_string())].into())
            })
            .collect::<Vec<_>>(),
    ))
}
