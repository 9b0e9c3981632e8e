//! The C data interface, through arrow-rs (`repr(transparent)` over its structs, so the two sides can be transmuted).
use std::sync::Arc;

use arrow::array::Array as _;
use arrow_data::ffi::FFI_ArrowArray;
use arrow_schema::ffi::FFI_ArrowSchema;
use arrow_schema::DataType as D1;

use crate::array::*;
use crate::datatypes::DataType;
use crate::datatypes::Field;
use crate::datatypes::IntervalUnit;
use crate::datatypes::PhysicalType;
use crate::datatypes::TimeUnit;
use crate::error::Error;
use crate::error::Result;
use crate::offset::OffsetsBuffer;
use crate::types::NativeType;
use crate::types::PrimitiveType as P;

#[repr(transparent)]
pub struct ArrowArray(FFI_ArrowArray);
#[repr(transparent)]
pub struct ArrowSchema(FFI_ArrowSchema);

fn tu(t: &TimeUnit) -> arrow_schema::TimeUnit {
    match t {
        TimeUnit::Second => arrow_schema::TimeUnit::Second,
        TimeUnit::Millisecond => arrow_schema::TimeUnit::Millisecond,
        TimeUnit::Microsecond => arrow_schema::TimeUnit::Microsecond,
        TimeUnit::Nanosecond => arrow_schema::TimeUnit::Nanosecond,
    }
}
fn field1(f: &Field) -> arrow_schema::Field {
    arrow_schema::Field::new(&f.name, dt1(&f.data_type), f.is_nullable)
}
fn dt1(d: &DataType) -> D1 {
    match d {
        DataType::Null => D1::Null,
        DataType::Boolean => D1::Boolean,
        DataType::Int8 => D1::Int8,
        DataType::Int16 => D1::Int16,
        DataType::Int32 => D1::Int32,
        DataType::Int64 => D1::Int64,
        DataType::UInt8 => D1::UInt8,
        DataType::UInt16 => D1::UInt16,
        DataType::UInt32 => D1::UInt32,
        DataType::UInt64 => D1::UInt64,
        DataType::Float16 => D1::Float16,
        DataType::Float32 => D1::Float32,
        DataType::Float64 => D1::Float64,
        DataType::Timestamp(u, tz) => D1::Timestamp(tu(u), tz.clone().map(|s| s.into())),
        DataType::Date32 => D1::Date32,
        DataType::Date64 => D1::Date64,
        DataType::Time32(u) => D1::Time32(tu(u)),
        DataType::Time64(u) => D1::Time64(tu(u)),
        DataType::Duration(u) => D1::Duration(tu(u)),
        DataType::Interval(IntervalUnit::YearMonth) => D1::Interval(arrow_schema::IntervalUnit::YearMonth),
        DataType::Interval(IntervalUnit::DayTime) => D1::Interval(arrow_schema::IntervalUnit::DayTime),
        DataType::Interval(IntervalUnit::MonthDayNano) => D1::Interval(arrow_schema::IntervalUnit::MonthDayNano),
        DataType::Binary => D1::Binary,
        DataType::FixedSizeBinary(n) => D1::FixedSizeBinary(*n as i32),
        DataType::LargeBinary => D1::LargeBinary,
        DataType::Utf8 => D1::Utf8,
        DataType::LargeUtf8 => D1::LargeUtf8,
        DataType::List(f) => D1::List(Arc::new(field1(f))),
        DataType::LargeList(f) => D1::LargeList(Arc::new(field1(f))),
        DataType::FixedSizeList(f, n) => D1::FixedSizeList(Arc::new(field1(f)), *n as i32),
        DataType::Struct(s) => D1::Struct(s.iter().map(field1).collect()),
        DataType::Decimal(p, s) => D1::Decimal128(*p as u8, *s as i8),
        DataType::Decimal256(p, s) => D1::Decimal256(*p as u8, *s as i8),
        d => unimplemented!("ffi of {d:?}"),
    }
}
fn to1(a: &dyn Array) -> arrow_array::ArrayRef {
    macro_rules! p {
        ($t:ty,$a:ty) => {{
            let x = a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap();
            let arr = <$a>::from_iter((0..x.len()).map(|i| x.get(i)));
            let data = arr.into_data().into_builder().data_type(dt1(Array::data_type(x))).build().unwrap();
            arrow_array::make_array(data)
        }};
    }
    macro_rules! l {
        ($o:ty,$a:ident) => {{
            let x = a.as_any().downcast_ref::<ListArray<$o>>().unwrap();
            let kids = to1(x.values().as_ref());
            let f = match dt1(Array::data_type(x)) {
                D1::List(f) | D1::LargeList(f) => f,
                _ => unreachable!(),
            };
            let offs = arrow_buffer::OffsetBuffer::new(x.offsets().buffer().to_vec().into());
            let nulls = ListArray::validity(x).map(|v| arrow_buffer::NullBuffer::from(v.iter().collect::<Vec<bool>>()));
            Arc::new(arrow_array::$a::new(f, offs, kids, nulls)) as arrow_array::ArrayRef
        }};
    }
    match a.data_type().to_physical_type() {
        PhysicalType::Null => Arc::new(arrow_array::NullArray::new(a.len())),
        PhysicalType::Boolean => {
            Arc::new(arrow_array::BooleanArray::from_iter(a.as_any().downcast_ref::<BooleanArray>().unwrap().iter()))
        }
        PhysicalType::Primitive(pt) => match pt {
            P::Int8 => p!(i8, arrow_array::Int8Array),
            P::Int16 => p!(i16, arrow_array::Int16Array),
            P::Int32 => p!(i32, arrow_array::Int32Array),
            P::Int64 => p!(i64, arrow_array::Int64Array),
            P::Int128 => p!(i128, arrow_array::Decimal128Array),
            P::UInt8 => p!(u8, arrow_array::UInt8Array),
            P::UInt16 => p!(u16, arrow_array::UInt16Array),
            P::UInt32 => p!(u32, arrow_array::UInt32Array),
            P::UInt64 => p!(u64, arrow_array::UInt64Array),
            P::Float32 => p!(f32, arrow_array::Float32Array),
            P::Float64 => p!(f64, arrow_array::Float64Array),
            p => unimplemented!("ffi of {p:?}"),
        },
        PhysicalType::Utf8 => Arc::new(arrow_array::StringArray::from_iter(a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().iter())),
        PhysicalType::LargeUtf8 => Arc::new(arrow_array::LargeStringArray::from_iter(a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().iter())),
        PhysicalType::Binary => Arc::new(arrow_array::BinaryArray::from_iter(a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().iter())),
        PhysicalType::LargeBinary => Arc::new(arrow_array::LargeBinaryArray::from_iter(a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().iter())),
        PhysicalType::List => l!(i32, ListArray),
        PhysicalType::LargeList => l!(i64, LargeListArray),
        p => unimplemented!("ffi of {p:?}"),
    }
}
pub fn export_array_to_c(a: Box<dyn Array>) -> ArrowArray {
    ArrowArray(FFI_ArrowArray::new(&to1(a.as_ref()).to_data()))
}
pub fn export_field_to_c(f: &Field) -> ArrowSchema {
    ArrowSchema(FFI_ArrowSchema::try_from(&field1(f)).unwrap())
}
fn from1(a: &arrow_array::ArrayRef, dt: &DataType) -> Result<Box<dyn Array>> {
    fn prim<T: NativeType, A: arrow_array::ArrowPrimitiveType<Native = T>>(a: &arrow_array::ArrayRef, dt: &DataType) -> Result<Box<dyn Array>> {
        let d = a.to_data().into_builder().data_type(A::DATA_TYPE).build().map_err(|e| Error::oos(e.to_string()))?;
        let x = arrow_array::PrimitiveArray::<A>::from(d);
        Ok(PrimitiveArray::<T>::from(x.iter().collect::<Vec<_>>()).to(dt.clone()).boxed())
    }
    use arrow_array::types as t;
    use arrow_array::Array as _;
    Ok(match dt.to_physical_type() {
        PhysicalType::Boolean => Box::new(BooleanArray::from(a.as_any().downcast_ref::<arrow_array::BooleanArray>().unwrap().iter().collect::<Vec<_>>())),
        PhysicalType::Primitive(pt) => match pt {
            P::Int8 => prim::<i8, t::Int8Type>(a, dt)?,
            P::Int16 => prim::<i16, t::Int16Type>(a, dt)?,
            P::Int32 => prim::<i32, t::Int32Type>(a, dt)?,
            P::Int64 => prim::<i64, t::Int64Type>(a, dt)?,
            P::Int128 => prim::<i128, t::Decimal128Type>(a, dt)?,
            P::UInt8 => prim::<u8, t::UInt8Type>(a, dt)?,
            P::UInt16 => prim::<u16, t::UInt16Type>(a, dt)?,
            P::UInt32 => prim::<u32, t::UInt32Type>(a, dt)?,
            P::UInt64 => prim::<u64, t::UInt64Type>(a, dt)?,
            P::Float32 => prim::<f32, t::Float32Type>(a, dt)?,
            P::Float64 => prim::<f64, t::Float64Type>(a, dt)?,
            p => return Err(Error::nyi(format!("{p:?}"))),
        },
        PhysicalType::Utf8 => Box::new(a.as_any().downcast_ref::<arrow_array::StringArray>().unwrap().iter().collect::<Utf8Array<i32>>()),
        PhysicalType::List => {
            let l = a.as_any().downcast_ref::<arrow_array::ListArray>().unwrap();
            let kid = from1(l.values(), ListArray::<i32>::get_child_type(dt))?;
            let valid = l.nulls().map(|n| n.iter().collect());
            Box::new(ListArray::<i32>::try_new(dt.clone(), OffsetsBuffer::try_from(l.offsets().to_vec())?, kid, valid)?)
        }
        p => return Err(Error::nyi(format!("{p:?}"))),
    })
}
/// # Safety
/// as the C data interface
pub unsafe fn import_array_from_c(array: ArrowArray, dt: DataType) -> Result<Box<dyn Array>> {
    let sch = FFI_ArrowSchema::try_from(&dt1(&dt)).map_err(|e| Error::oos(e.to_string()))?;
    let data = arrow::ffi::from_ffi(array.0, &sch).map_err(|e| Error::oos(e.to_string()))?;
    from1(&arrow_array::make_array(data), &dt)
}
