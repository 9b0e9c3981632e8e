use std::collections::BTreeMap;
use std::sync::Arc;

use serde::Deserialize;
use serde::Serialize;

pub use crate::types::PrimitiveType;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum TimeUnit {
    Second,
    Millisecond,
    Microsecond,
    Nanosecond,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntervalUnit {
    YearMonth,
    DayTime,
    MonthDayNano,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum UnionMode {
    Dense,
    Sparse,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntegerType {
    Int8,
    Int16,
    Int32,
    Int64,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
}
pub type Metadata = BTreeMap<String, String>;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum DataType {
    Null,
    Boolean,
    Int8,
    Int16,
    Int32,
    Int64,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
    Float16,
    Float32,
    Float64,
    Timestamp(TimeUnit, Option<String>),
    Date32,
    Date64,
    Time32(TimeUnit),
    Time64(TimeUnit),
    Duration(TimeUnit),
    Interval(IntervalUnit),
    Binary,
    FixedSizeBinary(usize),
    LargeBinary,
    Utf8,
    LargeUtf8,
    List(Box<Field>),
    FixedSizeList(Box<Field>, usize),
    LargeList(Box<Field>),
    Struct(Vec<Field>),
    Union(Vec<Field>, Option<Vec<i32>>, UnionMode),
    Map(Box<Field>, bool),
    Dictionary(IntegerType, Box<DataType>, bool),
    Decimal(usize, usize),
    Decimal256(usize, usize),
    Extension(String, Box<DataType>, Option<String>),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PhysicalType {
    Null,
    Boolean,
    Primitive(PrimitiveType),
    Binary,
    FixedSizeBinary,
    LargeBinary,
    Utf8,
    LargeUtf8,
    List,
    FixedSizeList,
    LargeList,
    Struct,
    Union,
    Map,
    Dictionary(IntegerType),
}
impl DataType {
    pub fn to_logical_type(&self) -> &DataType {
        match self {
            DataType::Extension(_, d, _) => d.to_logical_type(),
            d => d,
        }
    }
    pub fn to_physical_type(&self) -> PhysicalType {
        use DataType::*;
        use PrimitiveType as P;
        match self {
            Null => PhysicalType::Null,
            Boolean => PhysicalType::Boolean,
            Int8 => PhysicalType::Primitive(P::Int8),
            Int16 => PhysicalType::Primitive(P::Int16),
            Int32 | Date32 | Time32(_) | Interval(IntervalUnit::YearMonth) => PhysicalType::Primitive(P::Int32),
            Int64 | Date64 | Timestamp(_, _) | Time64(_) | Duration(_) => PhysicalType::Primitive(P::Int64),
            Decimal(_, _) => PhysicalType::Primitive(P::Int128),
            Decimal256(_, _) => PhysicalType::Primitive(P::Int256),
            UInt8 => PhysicalType::Primitive(P::UInt8),
            UInt16 => PhysicalType::Primitive(P::UInt16),
            UInt32 => PhysicalType::Primitive(P::UInt32),
            UInt64 => PhysicalType::Primitive(P::UInt64),
            Float16 => PhysicalType::Primitive(P::Float16),
            Float32 => PhysicalType::Primitive(P::Float32),
            Float64 => PhysicalType::Primitive(P::Float64),
            Interval(IntervalUnit::DayTime) => PhysicalType::Primitive(P::DaysMs),
            Interval(IntervalUnit::MonthDayNano) => PhysicalType::Primitive(P::MonthDayNano),
            Binary => PhysicalType::Binary,
            FixedSizeBinary(_) => PhysicalType::FixedSizeBinary,
            LargeBinary => PhysicalType::LargeBinary,
            Utf8 => PhysicalType::Utf8,
            LargeUtf8 => PhysicalType::LargeUtf8,
            List(_) => PhysicalType::List,
            FixedSizeList(_, _) => PhysicalType::FixedSizeList,
            LargeList(_) => PhysicalType::LargeList,
            Struct(_) => PhysicalType::Struct,
            Union(_, _, _) => PhysicalType::Union,
            Map(_, _) => PhysicalType::Map,
            Dictionary(k, _, _) => PhysicalType::Dictionary(*k),
            Extension(_, d, _) => d.to_physical_type(),
        }
    }
}
impl From<PrimitiveType> for DataType {
    fn from(p: PrimitiveType) -> Self {
        use PrimitiveType as P;
        match p {
            P::Int8 => DataType::Int8,
            P::Int16 => DataType::Int16,
            P::Int32 => DataType::Int32,
            P::Int64 => DataType::Int64,
            P::Int128 => DataType::Decimal(32, 32),
            P::Int256 => DataType::Decimal256(32, 32),
            P::UInt8 => DataType::UInt8,
            P::UInt16 => DataType::UInt16,
            P::UInt32 => DataType::UInt32,
            P::UInt64 => DataType::UInt64,
            P::Float16 => DataType::Float16,
            P::Float32 => DataType::Float32,
            P::Float64 => DataType::Float64,
            P::DaysMs => DataType::Interval(IntervalUnit::DayTime),
            P::MonthDayNano => DataType::Interval(IntervalUnit::MonthDayNano),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub data_type: DataType,
    pub is_nullable: bool,
    pub metadata: Metadata,
}
impl Field {
    pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self {
        Field { name: name.into(), data_type, is_nullable, metadata: Default::default() }
    }
    pub fn with_metadata(self, metadata: Metadata) -> Self {
        Field { metadata, ..self }
    }
    pub fn data_type(&self) -> &DataType {
        &self.data_type
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Schema {
    pub fields: Vec<Field>,
    pub metadata: Metadata,
}
impl Schema {
    pub fn with_metadata(self, metadata: Metadata) -> Self {
        Schema { fields: self.fields, metadata }
    }
    pub fn filter<F: Fn(usize, &Field) -> bool>(self, predicate: F) -> Self {
        let fields = self.fields.into_iter().enumerate().filter(|(i, f)| predicate(*i, f)).map(|(_, f)| f).collect();
        Schema { fields, metadata: self.metadata }
    }
}
impl From<Vec<Field>> for Schema {
    fn from(fields: Vec<Field>) -> Self {
        Schema { fields, metadata: Default::default() }
    }
}
pub type SchemaRef = Arc<Schema>;
