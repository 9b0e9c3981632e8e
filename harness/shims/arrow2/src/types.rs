use serde::Deserialize;
use serde::Serialize;

use crate::datatypes::DataType;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum PrimitiveType {
    Int8,
    Int16,
    Int32,
    Int64,
    Int128,
    Int256,
    UInt8,
    UInt16,
    UInt32,
    UInt64,
    Float16,
    Float32,
    Float64,
    DaysMs,
    MonthDayNano,
}
pub trait NativeType:
    Copy + Default + PartialEq + PartialOrd + std::fmt::Debug + std::fmt::Display + Send + Sync + std::panic::RefUnwindSafe + 'static
{
    const PRIMITIVE: PrimitiveType;
    const SIZE: usize;
    fn put(&self, o: &mut Vec<u8>);
    fn take(b: &[u8]) -> Self;
    fn __total_cmp(&self, o: &Self) -> std::cmp::Ordering;
    fn default_type() -> DataType {
        DataType::from(Self::PRIMITIVE)
    }
}
macro_rules! nt { ($($t:ty,$p:ident;)*) => { $( impl NativeType for $t {
    const PRIMITIVE: PrimitiveType = PrimitiveType::$p;
    const SIZE: usize = std::mem::size_of::<$t>();
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) }
    fn take(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
    fn __total_cmp(&self, o: &Self) -> std::cmp::Ordering { self.partial_cmp(o).unwrap_or_else(|| {
        // NaN orders last
        (self != self).cmp(&(o != o))
    }) }
} )* } }
nt!(i8,Int8; i16,Int16; i32,Int32; i64,Int64; i128,Int128; u8,UInt8; u16,UInt16; u32,UInt32; u64,UInt64; f32,Float32; f64,Float64;);

pub trait Index: NativeType {
    fn to_usize(&self) -> usize;
    fn from_usize(v: usize) -> Option<Self>;
}
macro_rules! ix { ($($t:ty)*) => { $( impl Index for $t {
    fn to_usize(&self) -> usize { *self as usize }
    fn from_usize(v: usize) -> Option<Self> { <$t>::try_from(v).ok() }
} )* } }
ix!(i8 i16 i32 i64 u8 u16 u32 u64);
