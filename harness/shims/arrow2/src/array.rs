use std::any::Any;
use std::sync::Arc;

use crate::bitmap::Bitmap;
use crate::datatypes::DataType;
use crate::datatypes::Field;
use crate::datatypes::PhysicalType;
use crate::error::Error;
use crate::error::Result;
use crate::offset::Offset;
use crate::offset::OffsetsBuffer;
use crate::types::NativeType;
use crate::types::PrimitiveType;

pub trait Array: Send + Sync + std::fmt::Debug + 'static {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn data_type(&self) -> &DataType;
    fn validity(&self) -> Option<&Bitmap>;
    fn null_count(&self) -> usize {
        if self.data_type() == &DataType::Null {
            return self.len();
        }
        self.validity().map(|v| v.unset_bits()).unwrap_or(0)
    }
    fn is_null(&self, i: usize) -> bool {
        assert!(i < self.len());
        self.validity().map(|v| !v.get_bit(i)).unwrap_or(false)
    }
    fn is_valid(&self, i: usize) -> bool {
        !self.is_null(i)
    }
    fn slice(&mut self, off: usize, len: usize);
    fn sliced(&self, off: usize, len: usize) -> Box<dyn Array> {
        let mut b = self.to_boxed();
        b.slice(off, len);
        b
    }
    fn to_boxed(&self) -> Box<dyn Array>;
    #[doc(hidden)]
    fn __eq(&self, o: &dyn Array) -> bool;
    #[doc(hidden)]
    fn __cmp(&self, i: usize, j: usize) -> std::cmp::Ordering;
    /// rows by (source index, row); None = null
    #[doc(hidden)]
    fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array>;
}
pub type ArrayRef = Arc<dyn Array>;
impl Clone for Box<dyn Array> {
    fn clone(&self) -> Self {
        self.to_boxed()
    }
}
impl PartialEq for dyn Array + '_ {
    fn eq(&self, o: &Self) -> bool {
        self.__eq(o)
    }
}
impl PartialEq<&(dyn Array + 'static)> for Box<dyn Array> {
    fn eq(&self, o: &&(dyn Array + 'static)) -> bool {
        self.as_ref().__eq(*o)
    }
}
impl AsRef<dyn Array> for dyn Array {
    fn as_ref(&self) -> &(dyn Array + 'static) {
        self
    }
}

fn mk_validity(v: Vec<bool>) -> Option<Bitmap> {
    if v.iter().all(|x| *x) {
        None
    } else {
        Some(v.into())
    }
}

// ---------------------------------------------------------------- primitive
#[derive(Clone)]
pub struct PrimitiveArray<T: NativeType> {
    dt: DataType,
    v: Arc<Vec<T>>,
    off: usize,
    len: usize,
    validity: Option<Bitmap>,
}
pub type Int8Array = PrimitiveArray<i8>;
pub type Int16Array = PrimitiveArray<i16>;
pub type Int32Array = PrimitiveArray<i32>;
pub type Int64Array = PrimitiveArray<i64>;
pub type Int128Array = PrimitiveArray<i128>;
pub type UInt8Array = PrimitiveArray<u8>;
pub type UInt16Array = PrimitiveArray<u16>;
pub type UInt32Array = PrimitiveArray<u32>;
pub type UInt64Array = PrimitiveArray<u64>;
pub type Float32Array = PrimitiveArray<f32>;
pub type Float64Array = PrimitiveArray<f64>;

impl<T: NativeType> PrimitiveArray<T> {
    pub fn new(dt: DataType, values: Vec<T>, validity: Option<Bitmap>) -> Self {
        Self::try_new(dt, values, validity).unwrap()
    }
    pub fn try_new(dt: DataType, values: Vec<T>, validity: Option<Bitmap>) -> Result<Self> {
        if validity.as_ref().map(|b| b.len() != values.len()).unwrap_or(false) {
            return Err(Error::oos("validity mask length must match the number of values"));
        }
        if dt.to_physical_type() != PhysicalType::Primitive(T::PRIMITIVE) {
            return Err(Error::oos("PrimitiveArray can only be initialized with a DataType whose physical type is Primitive"));
        }
        Ok(PrimitiveArray { dt, len: values.len(), v: Arc::new(values), off: 0, validity })
    }
    pub fn from_vec(values: Vec<T>) -> Self {
        Self::new(T::default_type(), values, None)
    }
    pub fn from_slice<S: AsRef<[T]>>(s: S) -> Self {
        Self::from_vec(s.as_ref().to_vec())
    }
    pub fn from_values<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self::from_vec(i.into_iter().collect())
    }
    pub fn new_empty(dt: DataType) -> Self {
        Self::new(dt, vec![], None)
    }
    pub fn new_null(dt: DataType, n: usize) -> Self {
        Self::new(dt, vec![T::default(); n], Some(Bitmap::new_zeroed(n)))
    }
    pub fn to(self, dt: DataType) -> Self {
        assert_eq!(dt.to_physical_type(), PhysicalType::Primitive(T::PRIMITIVE), "PrimitiveArray::to: physical type mismatch");
        PrimitiveArray { dt, ..self }
    }
    pub fn values(&self) -> &[T] {
        &self.v[self.off..self.off + self.len]
    }
    pub fn values_iter(&self) -> std::slice::Iter<'_, T> {
        self.values().iter()
    }
    pub fn value(&self, i: usize) -> T {
        self.values()[i]
    }
    pub fn get(&self, i: usize) -> Option<T> {
        if self.is_null(i) {
            None
        } else {
            Some(self.value(i))
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<&T>> + '_ {
        (0..self.len).map(move |i| if self.is_null(i) { None } else { Some(&self.values()[i]) })
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
    pub fn arced(self) -> Arc<dyn Array> {
        Arc::new(self)
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn data_type(&self) -> &DataType {
        &self.dt
    }
    pub fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    pub fn sliced(mut self, off: usize, len: usize) -> Self {
        Array::slice(&mut self, off, len);
        self
    }
    pub fn slice(&mut self, off: usize, len: usize) {
        Array::slice(self, off, len)
    }
    pub fn with_validity(mut self, v: Option<Bitmap>) -> Self {
        self.validity = v;
        self
    }
}
impl<T: NativeType> std::fmt::Debug for PrimitiveArray<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.dt)?;
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<T: NativeType> PartialEq for PrimitiveArray<T> {
    fn eq(&self, o: &Self) -> bool {
        self.dt == o.dt && self.len == o.len && self.iter().eq(o.iter())
    }
}
impl<T: NativeType> Array for PrimitiveArray<T> {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.len
    }
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    fn slice(&mut self, off: usize, len: usize) {
        assert!(off + len <= self.len, "the offset of the new array cannot exceed the arrays' length");
        self.off += off;
        self.len = len;
        if let Some(v) = self.validity.as_mut() {
            v.slice(off, len)
        }
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
    fn __eq(&self, o: &dyn Array) -> bool {
        o.as_any().downcast_ref::<Self>().map(|o| self == o).unwrap_or(false)
    }
    fn __cmp(&self, i: usize, j: usize) -> std::cmp::Ordering {
        self.value(i).__total_cmp(&self.value(j))
    }
    fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
        let s: Vec<&Self> = srcs.iter().map(|a| a.as_any().downcast_ref::<Self>().unwrap()).collect();
        let mut v = Vec::with_capacity(rows.len());
        let mut b = Vec::with_capacity(rows.len());
        for r in rows {
            match r {
                Some((a, i)) if s[*a].is_valid(*i) => {
                    v.push(s[*a].value(*i));
                    b.push(true);
                }
                _ => {
                    v.push(T::default());
                    b.push(false);
                }
            }
        }
        Box::new(PrimitiveArray::new(self.dt.clone(), v, mk_validity(b)))
    }
}
impl<T: NativeType> From<Vec<Option<T>>> for PrimitiveArray<T> {
    fn from(v: Vec<Option<T>>) -> Self {
        MutablePrimitiveArray::from(v).into()
    }
}
impl<T: NativeType, const N: usize> From<[Option<T>; N]> for PrimitiveArray<T> {
    fn from(v: [Option<T>; N]) -> Self {
        Self::from(v.to_vec())
    }
}
impl<T: NativeType> FromIterator<Option<T>> for PrimitiveArray<T> {
    fn from_iter<I: IntoIterator<Item = Option<T>>>(i: I) -> Self {
        Self::from(i.into_iter().collect::<Vec<_>>())
    }
}
impl<T: NativeType> IntoIterator for PrimitiveArray<T> {
    type Item = Option<T>;
    type IntoIter = std::vec::IntoIter<Option<T>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().map(|x| x.copied()).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, T: NativeType> IntoIterator for &'a PrimitiveArray<T> {
    type Item = Option<&'a T>;
    type IntoIter = std::vec::IntoIter<Option<&'a T>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}

// ---------------------------------------------------------------- boolean
#[derive(Clone)]
pub struct BooleanArray {
    dt: DataType,
    v: Bitmap,
    validity: Option<Bitmap>,
}
impl BooleanArray {
    pub fn new(dt: DataType, v: Bitmap, validity: Option<Bitmap>) -> Self {
        assert_eq!(dt.to_physical_type(), PhysicalType::Boolean);
        BooleanArray { dt, v, validity }
    }
    pub fn from_slice<S: AsRef<[bool]>>(s: S) -> Self {
        Self::new(DataType::Boolean, s.as_ref().to_vec().into(), None)
    }
    pub fn value(&self, i: usize) -> bool {
        self.v.get_bit(i)
    }
    pub fn values(&self) -> &Bitmap {
        &self.v
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<bool>> + '_ {
        (0..self.v.len()).map(move |i| if self.is_null(i) { None } else { Some(self.value(i)) })
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn sliced(mut self, off: usize, len: usize) -> Self {
        Array::slice(&mut self, off, len);
        self
    }
}
impl std::fmt::Debug for BooleanArray {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.dt)?;
        f.debug_list().entries(self.iter()).finish()
    }
}
impl PartialEq for BooleanArray {
    fn eq(&self, o: &Self) -> bool {
        self.dt == o.dt && self.iter().eq(o.iter())
    }
}
impl Array for BooleanArray {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    fn slice(&mut self, off: usize, len: usize) {
        self.v.slice(off, len);
        if let Some(v) = self.validity.as_mut() {
            v.slice(off, len)
        }
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
    fn __eq(&self, o: &dyn Array) -> bool {
        o.as_any().downcast_ref::<Self>().map(|o| self == o).unwrap_or(false)
    }
    fn __cmp(&self, i: usize, j: usize) -> std::cmp::Ordering {
        self.value(i).cmp(&self.value(j))
    }
    fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
        let s: Vec<&Self> = srcs.iter().map(|a| a.as_any().downcast_ref::<Self>().unwrap()).collect();
        let v: Vec<Option<bool>> =
            rows.iter().map(|r| r.and_then(|(a, i)| if s[a].is_null(i) { None } else { Some(s[a].value(i)) })).collect();
        Box::new(BooleanArray::from(v))
    }
}
impl From<Vec<Option<bool>>> for BooleanArray {
    fn from(v: Vec<Option<bool>>) -> Self {
        let b = mk_validity(v.iter().map(|x| x.is_some()).collect());
        BooleanArray::new(DataType::Boolean, v.into_iter().map(|x| x.unwrap_or(false)).collect(), b)
    }
}
impl<const N: usize> From<[Option<bool>; N]> for BooleanArray {
    fn from(v: [Option<bool>; N]) -> Self {
        Self::from(v.to_vec())
    }
}
impl FromIterator<Option<bool>> for BooleanArray {
    fn from_iter<I: IntoIterator<Item = Option<bool>>>(i: I) -> Self {
        Self::from(i.into_iter().collect::<Vec<_>>())
    }
}
impl<'a> IntoIterator for &'a BooleanArray {
    type Item = Option<bool>;
    type IntoIter = std::vec::IntoIter<Option<bool>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}
impl IntoIterator for BooleanArray {
    type Item = Option<bool>;
    type IntoIter = std::vec::IntoIter<Option<bool>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}

// ---------------------------------------------------------------- utf8 / binary
macro_rules! varlen {
    ($name:ident,$mname:ident,$owned:ty,$item:ty,$small:ident,$large:ident,$def:expr) => {
        #[derive(Clone)]
        pub struct $name<O: Offset> {
            dt: DataType,
            v: Arc<Vec<Option<$owned>>>,
            off: usize,
            len: usize,
            validity: Option<Bitmap>,
            _o: std::marker::PhantomData<O>,
        }
        impl<O: Offset> $name<O> {
            pub fn default_data_type() -> DataType {
                if O::IS_LARGE {
                    DataType::$large
                } else {
                    DataType::$small
                }
            }
            fn build(v: Vec<Option<$owned>>) -> Self {
                let validity = mk_validity(v.iter().map(|x| x.is_some()).collect());
                Self { dt: Self::default_data_type(), len: v.len(), v: Arc::new(v), off: 0, validity, _o: Default::default() }
            }
            pub fn from_slice<T: AsRef<$item>, P: AsRef<[T]>>(s: P) -> Self {
                Self::build(s.as_ref().iter().map(|x| Some(x.as_ref().to_owned())).collect())
            }
            pub fn from<T: AsRef<$item>, P: AsRef<[Option<T>]>>(s: P) -> Self {
                Self::build(s.as_ref().iter().map(|x| x.as_ref().map(|x| x.as_ref().to_owned())).collect())
            }
            pub fn value(&self, i: usize) -> &$item {
                assert!(i < self.len);
                match &self.v[self.off + i] {
                    Some(v) => v.as_ref(),
                    None => $def,
                }
            }
            pub fn iter(&self) -> impl Iterator<Item = Option<&$item>> + '_ {
                (0..self.len).map(move |i| self.v[self.off + i].as_ref().map(|x| x.as_ref()))
            }
            pub fn values_iter(&self) -> impl Iterator<Item = &$item> + '_ {
                (0..self.len).map(move |i| self.value(i))
            }
            pub fn boxed(self) -> Box<dyn Array> {
                Box::new(self)
            }
            pub fn len(&self) -> usize {
                self.len
            }
            pub fn sliced(mut self, off: usize, len: usize) -> Self {
                Array::slice(&mut self, off, len);
                self
            }
            pub fn to(mut self, dt: DataType) -> Self {
                self.dt = dt;
                self
            }
        }
        impl<O: Offset> std::fmt::Debug for $name<O> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.dt)?;
                f.debug_list().entries(self.iter()).finish()
            }
        }
        impl<O: Offset> PartialEq for $name<O> {
            fn eq(&self, o: &Self) -> bool {
                self.dt == o.dt && self.len == o.len && self.iter().eq(o.iter())
            }
        }
        impl<O: Offset> Array for $name<O> {
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn as_any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn len(&self) -> usize {
                self.len
            }
            fn data_type(&self) -> &DataType {
                &self.dt
            }
            fn validity(&self) -> Option<&Bitmap> {
                self.validity.as_ref()
            }
            fn slice(&mut self, off: usize, len: usize) {
                assert!(off + len <= self.len);
                self.off += off;
                self.len = len;
                if let Some(v) = self.validity.as_mut() {
                    v.slice(off, len)
                }
            }
            fn to_boxed(&self) -> Box<dyn Array> {
                Box::new(self.clone())
            }
            fn __eq(&self, o: &dyn Array) -> bool {
                o.as_any().downcast_ref::<Self>().map(|o| self == o).unwrap_or(false)
            }
            fn __cmp(&self, i: usize, j: usize) -> std::cmp::Ordering {
                self.value(i).cmp(self.value(j))
            }
            fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
                let s: Vec<&Self> = srcs.iter().map(|a| a.as_any().downcast_ref::<Self>().unwrap()).collect();
                Box::new(Self::build(
                    rows.iter()
                        .map(|r| r.and_then(|(a, i)| if s[a].is_null(i) { None } else { Some(s[a].value(i).to_owned()) }))
                        .collect(),
                ))
            }
        }
        impl<O: Offset, T: AsRef<$item>> FromIterator<Option<T>> for $name<O> {
            fn from_iter<I: IntoIterator<Item = Option<T>>>(i: I) -> Self {
                Self::build(i.into_iter().map(|x| x.map(|x| x.as_ref().to_owned())).collect())
            }
        }
        impl<'a, O: Offset> IntoIterator for &'a $name<O> {
            type Item = Option<&'a $item>;
            type IntoIter = std::vec::IntoIter<Option<&'a $item>>;
            fn into_iter(self) -> Self::IntoIter {
                self.iter().collect::<Vec<_>>().into_iter()
            }
        }

        #[derive(Clone, Debug)]
        pub struct $mname<O: Offset> {
            dt: DataType,
            v: Vec<Option<$owned>>,
            _o: std::marker::PhantomData<O>,
        }
        impl<O: Offset> Default for $mname<O> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<O: Offset> $mname<O> {
            pub fn new() -> Self {
                Self { dt: $name::<O>::default_data_type(), v: vec![], _o: Default::default() }
            }
            pub fn with_capacity(n: usize) -> Self {
                let mut s = Self::new();
                s.v.reserve(n);
                s
            }
            pub fn push<T: AsRef<$item>>(&mut self, v: Option<T>) {
                self.v.push(v.map(|v| v.as_ref().to_owned()))
            }
            pub fn from<T: AsRef<$item>, P: AsRef<[Option<T>]>>(s: P) -> Self {
                let mut m = Self::new();
                for x in s.as_ref() {
                    m.v.push(x.as_ref().map(|x| x.as_ref().to_owned()));
                }
                m
            }
            pub fn len(&self) -> usize {
                self.v.len()
            }
            pub fn to(mut self, dt: DataType) -> Self {
                self.dt = dt;
                self
            }
        }
        impl<O: Offset> From<$mname<O>> for $name<O> {
            fn from(m: $mname<O>) -> Self {
                let mut a = $name::build(m.v);
                a.dt = m.dt;
                a
            }
        }
        impl<O: Offset> MutableArray for $mname<O> {
            fn data_type(&self) -> &DataType {
                &self.dt
            }
            fn len(&self) -> usize {
                self.v.len()
            }
            fn as_box(&mut self) -> Box<dyn Array> {
                let mut a = $name::<O>::build(std::mem::take(&mut self.v));
                a.dt = self.dt.clone();
                Box::new(a)
            }
            fn push_null(&mut self) {
                self.v.push(None)
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn as_mut_any(&mut self) -> &mut dyn Any {
                self
            }
        }
        impl<O: Offset, T: AsRef<$item>> TryExtend<Option<T>> for $mname<O> {
            fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, i: I) -> Result<()> {
                for x in i {
                    self.push(x);
                }
                Ok(())
            }
        }
        impl<O: Offset, T: AsRef<$item>> TryPush<Option<T>> for $mname<O> {
            fn try_push(&mut self, x: Option<T>) -> Result<()> {
                self.push(x);
                Ok(())
            }
        }
        impl<O: Offset, T: AsRef<$item>> Extend<Option<T>> for $mname<O> {
            fn extend<I: IntoIterator<Item = Option<T>>>(&mut self, i: I) {
                for x in i {
                    self.push(x);
                }
            }
        }
    };
}
varlen!(Utf8Array, MutableUtf8Array, String, str, Utf8, LargeUtf8, "");
varlen!(BinaryArray, MutableBinaryArray, Vec<u8>, [u8], Binary, LargeBinary, &[]);

#[derive(Clone)]
pub struct FixedSizeBinaryArray {
    dt: DataType,
    size: usize,
    v: Vec<Option<Vec<u8>>>,
    validity: Option<Bitmap>,
}
impl FixedSizeBinaryArray {
    pub fn new(dt: DataType, values: Vec<u8>, validity: Option<Bitmap>) -> Self {
        let size = match dt.to_logical_type() {
            DataType::FixedSizeBinary(n) => *n,
            _ => panic!("FixedSizeBinaryArray expects DataType::FixedSizeBinary"),
        };
        let v = values
            .chunks(size)
            .enumerate()
            .map(|(i, c)| if validity.as_ref().map(|b| b.get_bit(i)).unwrap_or(true) { Some(c.to_vec()) } else { None })
            .collect();
        FixedSizeBinaryArray { dt, size, v, validity }
    }
    pub fn from_iter<P: AsRef<[u8]>, I: IntoIterator<Item = Option<P>>>(i: I, size: usize) -> Self {
        let v: Vec<Option<Vec<u8>>> = i.into_iter().map(|x| x.map(|x| x.as_ref().to_vec())).collect();
        let validity = mk_validity(v.iter().map(|x| x.is_some()).collect());
        FixedSizeBinaryArray { dt: DataType::FixedSizeBinary(size), size, v, validity }
    }
    pub fn size(&self) -> usize {
        self.size
    }
    pub fn value(&self, i: usize) -> &[u8] {
        self.v[i].as_deref().unwrap_or(&[])
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<&[u8]>> + '_ {
        self.v.iter().map(|x| x.as_deref())
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
}
impl std::fmt::Debug for FixedSizeBinaryArray {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl Array for FixedSizeBinaryArray {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    fn slice(&mut self, off: usize, len: usize) {
        self.v = self.v[off..off + len].to_vec();
        if let Some(v) = self.validity.as_mut() {
            v.slice(off, len)
        }
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
    fn __eq(&self, o: &dyn Array) -> bool {
        o.as_any().downcast_ref::<Self>().map(|o| self.dt == o.dt && self.v == o.v).unwrap_or(false)
    }
    fn __cmp(&self, i: usize, j: usize) -> std::cmp::Ordering {
        self.value(i).cmp(self.value(j))
    }
    fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
        let s: Vec<&Self> = srcs.iter().map(|a| a.as_any().downcast_ref::<Self>().unwrap()).collect();
        Box::new(Self::from_iter(rows.iter().map(|r| r.and_then(|(a, i)| s[a].v[i].clone())), self.size))
    }
}

// ---------------------------------------------------------------- null
#[derive(Clone, Debug)]
pub struct NullArray {
    dt: DataType,
    n: usize,
}
impl NullArray {
    pub fn new(dt: DataType, n: usize) -> Self {
        NullArray { dt, n }
    }
}
impl Array for NullArray {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.n
    }
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn validity(&self) -> Option<&Bitmap> {
        None
    }
    fn slice(&mut self, _off: usize, len: usize) {
        self.n = len
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
    fn __eq(&self, o: &dyn Array) -> bool {
        o.as_any().downcast_ref::<Self>().map(|o| self.n == o.n).unwrap_or(false)
    }
    fn __cmp(&self, _i: usize, _j: usize) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
    fn __gather(&self, _srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
        Box::new(NullArray { dt: DataType::Null, n: rows.len() })
    }
}

// ---------------------------------------------------------------- list
#[derive(Clone)]
pub struct ListArray<O: Offset> {
    dt: DataType,
    offsets: OffsetsBuffer<O>,
    values: Box<dyn Array>,
    validity: Option<Bitmap>,
}
impl<O: Offset> ListArray<O> {
    pub fn new(dt: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap>) -> Self {
        Self::try_new(dt, offsets, values, validity).unwrap()
    }
    pub fn try_new(dt: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap>) -> Result<Self> {
        if validity.as_ref().map(|v| v.len() != offsets.len_proxy()).unwrap_or(false) {
            return Err(Error::oos("validity mask length must match the number of values"));
        }
        if Self::get_child_type(&dt) != values.data_type() {
            return Err(Error::oos(format!(
                "ListArray's child's DataType must match. Expected {:?}, got {:?}",
                Self::get_child_type(&dt),
                values.data_type()
            )));
        }
        Ok(ListArray { dt, offsets, values, validity })
    }
    pub fn default_datatype(dt: DataType) -> DataType {
        let f = Box::new(Field::new("item", dt, true));
        if O::IS_LARGE {
            DataType::LargeList(f)
        } else {
            DataType::List(f)
        }
    }
    pub fn get_child_type(dt: &DataType) -> &DataType {
        match dt.to_logical_type() {
            DataType::List(f) | DataType::LargeList(f) => &f.data_type,
            _ => panic!("ListArray expects DataType::List or LargeList"),
        }
    }
    pub fn values(&self) -> &Box<dyn Array> {
        &self.values
    }
    pub fn offsets(&self) -> &OffsetsBuffer<O> {
        &self.offsets
    }
    pub fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    pub fn len(&self) -> usize {
        self.offsets.len_proxy()
    }
    pub fn value(&self, i: usize) -> Box<dyn Array> {
        let (s, e) = self.offsets.start_end(i);
        self.values.sliced(s, e - s)
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<Box<dyn Array>>> + '_ {
        (0..self.len()).map(move |i| if self.is_null(i) { None } else { Some(self.value(i)) })
    }
    pub fn boxed(self) -> Box<dyn Array> {
        Box::new(self)
    }
}
impl<O: Offset> std::fmt::Debug for ListArray<O> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<O: Offset> Array for ListArray<O> {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.offsets.len_proxy()
    }
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn validity(&self) -> Option<&Bitmap> {
        self.validity.as_ref()
    }
    fn slice(&mut self, off: usize, len: usize) {
        self.offsets.slice(off, len);
        if let Some(v) = self.validity.as_mut() {
            v.slice(off, len)
        }
    }
    fn to_boxed(&self) -> Box<dyn Array> {
        Box::new(self.clone())
    }
    fn __eq(&self, o: &dyn Array) -> bool {
        o.as_any()
            .downcast_ref::<Self>()
            .map(|o| self.dt == o.dt && self.len() == o.len() && self.iter().eq(o.iter()))
            .unwrap_or(false)
    }
    fn __cmp(&self, _i: usize, _j: usize) -> std::cmp::Ordering {
        unimplemented!("ordering of lists")
    }
    fn __gather(&self, srcs: &[&dyn Array], rows: &[Option<(usize, usize)>]) -> Box<dyn Array> {
        let s: Vec<&Self> = srcs.iter().map(|a| a.as_any().downcast_ref::<Self>().unwrap()).collect();
        let kids: Vec<&dyn Array> = s.iter().map(|a| a.values.as_ref()).collect();
        let mut offs = vec![O::zero()];
        let mut valid = vec![];
        let mut krows = vec![];
        for r in rows {
            match r {
                Some((a, i)) if s[*a].is_valid(*i) => {
                    let (b, e) = s[*a].offsets.start_end(*i);
                    krows.extend((b..e).map(|k| Some((*a, k))));
                    valid.push(true);
                }
                _ => valid.push(false),
            }
            offs.push(O::from_usize_(krows.len()).unwrap());
        }
        let values = self.values.__gather(&kids, &krows);
        Box::new(ListArray { dt: self.dt.clone(), offsets: OffsetsBuffer::from_vec(offs), values, validity: mk_validity(valid) })
    }
}

// ---------------------------------------------------------------- mutable
pub trait MutableArray: std::fmt::Debug + Send + Sync {
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn as_box(&mut self) -> Box<dyn Array>;
    fn as_arc(&mut self) -> Arc<dyn Array> {
        Arc::from(self.as_box())
    }
    fn push_null(&mut self);
    fn as_any(&self) -> &dyn Any;
    fn as_mut_any(&mut self) -> &mut dyn Any;
}
pub trait TryExtend<A> {
    fn try_extend<I: IntoIterator<Item = A>>(&mut self, i: I) -> Result<()>;
}
pub trait TryPush<A> {
    fn try_push(&mut self, a: A) -> Result<()>;
}

#[derive(Clone, Debug)]
pub struct MutablePrimitiveArray<T: NativeType> {
    dt: DataType,
    v: Vec<Option<T>>,
}
impl<T: NativeType> Default for MutablePrimitiveArray<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: NativeType> MutablePrimitiveArray<T> {
    pub fn new() -> Self {
        Self { dt: T::default_type(), v: vec![] }
    }
    pub fn with_capacity(n: usize) -> Self {
        Self { dt: T::default_type(), v: Vec::with_capacity(n) }
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self { dt: T::default_type(), v: v.into_iter().map(Some).collect() }
    }
    pub fn from_slice<P: AsRef<[T]>>(s: P) -> Self {
        Self::from_vec(s.as_ref().to_vec())
    }
    pub fn push(&mut self, v: Option<T>) {
        self.v.push(v)
    }
    pub fn to(self, dt: DataType) -> Self {
        assert_eq!(dt.to_physical_type(), PhysicalType::Primitive(T::PRIMITIVE), "MutablePrimitiveArray::to: physical type mismatch");
        Self { dt, ..self }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T: NativeType> From<Vec<Option<T>>> for MutablePrimitiveArray<T> {
    fn from(v: Vec<Option<T>>) -> Self {
        Self { dt: T::default_type(), v }
    }
}
impl<T: NativeType, const N: usize> From<[Option<T>; N]> for MutablePrimitiveArray<T> {
    fn from(v: [Option<T>; N]) -> Self {
        v.to_vec().into()
    }
}
impl<T: NativeType> From<MutablePrimitiveArray<T>> for PrimitiveArray<T> {
    fn from(m: MutablePrimitiveArray<T>) -> Self {
        let b = mk_validity(m.v.iter().map(|x| x.is_some()).collect());
        PrimitiveArray::new(m.dt, m.v.into_iter().map(|x| x.unwrap_or_default()).collect(), b)
    }
}
impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        let m = MutablePrimitiveArray { dt: self.dt.clone(), v: std::mem::take(&mut self.v) };
        Box::new(PrimitiveArray::from(m))
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
impl<T: NativeType> TryExtend<Option<T>> for MutablePrimitiveArray<T> {
    fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, i: I) -> Result<()> {
        self.v.extend(i);
        Ok(())
    }
}
impl<T: NativeType> TryPush<Option<T>> for MutablePrimitiveArray<T> {
    fn try_push(&mut self, x: Option<T>) -> Result<()> {
        self.v.push(x);
        Ok(())
    }
}
impl<T: NativeType> Extend<Option<T>> for MutablePrimitiveArray<T> {
    fn extend<I: IntoIterator<Item = Option<T>>>(&mut self, i: I) {
        self.v.extend(i)
    }
}

#[derive(Clone, Debug)]
pub struct MutableBooleanArray {
    dt: DataType,
    v: Vec<Option<bool>>,
}
impl Default for MutableBooleanArray {
    fn default() -> Self {
        Self::new()
    }
}
impl MutableBooleanArray {
    pub fn new() -> Self {
        Self { dt: DataType::Boolean, v: vec![] }
    }
    pub fn with_capacity(n: usize) -> Self {
        Self { dt: DataType::Boolean, v: Vec::with_capacity(n) }
    }
    pub fn push(&mut self, v: Option<bool>) {
        self.v.push(v)
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
}
impl<P: AsRef<[Option<bool>]>> From<P> for MutableBooleanArray {
    fn from(v: P) -> Self {
        Self { dt: DataType::Boolean, v: v.as_ref().to_vec() }
    }
}
impl From<MutableBooleanArray> for BooleanArray {
    fn from(m: MutableBooleanArray) -> Self {
        BooleanArray::from(m.v)
    }
}
impl MutableArray for MutableBooleanArray {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        Box::new(BooleanArray::from(std::mem::take(&mut self.v)))
    }
    fn push_null(&mut self) {
        self.v.push(None)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
impl TryExtend<Option<bool>> for MutableBooleanArray {
    fn try_extend<I: IntoIterator<Item = Option<bool>>>(&mut self, i: I) -> Result<()> {
        self.v.extend(i);
        Ok(())
    }
}
impl TryPush<Option<bool>> for MutableBooleanArray {
    fn try_push(&mut self, x: Option<bool>) -> Result<()> {
        self.v.push(x);
        Ok(())
    }
}
impl Extend<Option<bool>> for MutableBooleanArray {
    fn extend<I: IntoIterator<Item = Option<bool>>>(&mut self, i: I) {
        self.v.extend(i)
    }
}

#[derive(Debug, Clone)]
pub struct MutableListArray<O: Offset, M: MutableArray> {
    dt: DataType,
    offs: Vec<O>,
    values: M,
    valid: Vec<bool>,
}
impl<O: Offset, M: MutableArray + Default> MutableListArray<O, M> {
    pub fn new() -> Self {
        Self::new_from(M::default(), ListArray::<O>::default_datatype(M::default().data_type().clone()), 0)
    }
    pub fn with_capacity(n: usize) -> Self {
        Self::new_from(M::default(), ListArray::<O>::default_datatype(M::default().data_type().clone()), n)
    }
}
impl<O: Offset, M: MutableArray> MutableListArray<O, M> {
    pub fn new_from(values: M, dt: DataType, _cap: usize) -> Self {
        assert_eq!(values.len(), 0);
        ListArray::<O>::get_child_type(&dt);
        MutableListArray { dt, offs: vec![O::zero()], values, valid: vec![] }
    }
    pub fn new_with_field(values: M, name: &str, nullable: bool) -> Self {
        let f = Box::new(Field::new(name, values.data_type().clone(), nullable));
        let dt = if O::IS_LARGE { DataType::LargeList(f) } else { DataType::List(f) };
        Self::new_from(values, dt, 0)
    }
    pub fn mut_values(&mut self) -> &mut M {
        &mut self.values
    }
    pub fn values(&self) -> &M {
        &self.values
    }
    pub fn try_push_valid(&mut self) -> Result<()> {
        self.offs.push(O::from_usize_(self.values.len()).ok_or(Error::Overflow)?);
        self.valid.push(true);
        Ok(())
    }
    fn fin(&mut self) -> ListArray<O> {
        let values = self.values.as_box();
        let offs = std::mem::replace(&mut self.offs, vec![O::zero()]);
        let valid = std::mem::take(&mut self.valid);
        ListArray::new(self.dt.clone(), OffsetsBuffer::from_vec(offs), values, mk_validity(valid))
    }
}
impl<O: Offset, M: MutableArray + Default> Default for MutableListArray<O, M> {
    fn default() -> Self {
        Self::new()
    }
}
impl<O: Offset, M: MutableArray> From<MutableListArray<O, M>> for ListArray<O> {
    fn from(mut m: MutableListArray<O, M>) -> Self {
        m.fin()
    }
}
impl<O: Offset, M: MutableArray + 'static> MutableArray for MutableListArray<O, M> {
    fn data_type(&self) -> &DataType {
        &self.dt
    }
    fn len(&self) -> usize {
        self.valid.len()
    }
    fn as_box(&mut self) -> Box<dyn Array> {
        Box::new(self.fin())
    }
    fn push_null(&mut self) {
        self.offs.push(*self.offs.last().unwrap());
        self.valid.push(false);
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
impl<O: Offset, M, I, T> TryPush<Option<I>> for MutableListArray<O, M>
where
    M: MutableArray + TryExtend<Option<T>> + 'static,
    I: IntoIterator<Item = Option<T>>,
{
    fn try_push(&mut self, x: Option<I>) -> Result<()> {
        match x {
            None => {
                self.push_null();
                Ok(())
            }
            Some(i) => {
                self.values.try_extend(i)?;
                self.try_push_valid()
            }
        }
    }
}
impl<O: Offset, M, I, T> TryExtend<Option<I>> for MutableListArray<O, M>
where
    M: MutableArray + TryExtend<Option<T>> + 'static,
    I: IntoIterator<Item = Option<T>>,
{
    fn try_extend<II: IntoIterator<Item = Option<I>>>(&mut self, it: II) -> Result<()> {
        for x in it {
            self.try_push(x)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- construction
pub fn new_null_array(dt: DataType, n: usize) -> Box<dyn Array> {
    use PrimitiveType as P;
    macro_rules! p {
        ($t:ty) => {
            Box::new(PrimitiveArray::<$t>::new_null(dt, n))
        };
    }
    match dt.to_physical_type() {
        PhysicalType::Null => Box::new(NullArray::new(dt, n)),
        PhysicalType::Boolean => Box::new(BooleanArray::new(dt, Bitmap::new_zeroed(n), Some(Bitmap::new_zeroed(n)))),
        PhysicalType::Primitive(p) => match p {
            P::Int8 => p!(i8),
            P::Int16 => p!(i16),
            P::Int32 => p!(i32),
            P::Int64 => p!(i64),
            P::Int128 => p!(i128),
            P::UInt8 => p!(u8),
            P::UInt16 => p!(u16),
            P::UInt32 => p!(u32),
            P::UInt64 => p!(u64),
            P::Float32 => p!(f32),
            P::Float64 => p!(f64),
            p => unimplemented!("null array of {p:?}"),
        },
        PhysicalType::Binary => Box::new(BinaryArray::<i32>::build(vec![None; n])),
        PhysicalType::LargeBinary => Box::new(BinaryArray::<i64>::build(vec![None; n])),
        PhysicalType::Utf8 => Box::new(Utf8Array::<i32>::build(vec![None; n])),
        PhysicalType::LargeUtf8 => Box::new(Utf8Array::<i64>::build(vec![None; n])),
        PhysicalType::FixedSizeBinary => {
            let DataType::FixedSizeBinary(s) = dt.to_logical_type() else { unreachable!() };
            Box::new(FixedSizeBinaryArray::from_iter((0..n).map(|_| None::<Vec<u8>>), *s))
        }
        PhysicalType::List => {
            let v = new_empty_array(ListArray::<i32>::get_child_type(&dt).clone());
            Box::new(ListArray::<i32>::new(dt, OffsetsBuffer::from_vec(vec![0; n + 1]), v, Some(Bitmap::new_zeroed(n))))
        }
        PhysicalType::LargeList => {
            let v = new_empty_array(ListArray::<i64>::get_child_type(&dt).clone());
            Box::new(ListArray::<i64>::new(dt, OffsetsBuffer::from_vec(vec![0; n + 1]), v, Some(Bitmap::new_zeroed(n))))
        }
        p => unimplemented!("null array of {p:?}"),
    }
}
pub fn new_empty_array(dt: DataType) -> Box<dyn Array> {
    new_null_array(dt, 0)
}

pub mod growable {
    use super::Array;
    pub trait Growable<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize);
        fn extend_validity(&mut self, additional: usize);
        fn as_box(&mut self) -> Box<dyn Array>;
        fn len(&self) -> usize;
    }
    struct G<'a> {
        srcs: Vec<&'a dyn Array>,
        rows: Vec<Option<(usize, usize)>>,
    }
    impl<'a> Growable<'a> for G<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize) {
            assert!(start + len <= self.srcs[index].len(), "growable: out of bounds");
            self.rows.extend((start..start + len).map(|i| Some((index, i))));
        }
        fn extend_validity(&mut self, n: usize) {
            self.rows.extend(std::iter::repeat(None).take(n));
        }
        fn as_box(&mut self) -> Box<dyn Array> {
            self.srcs[0].__gather(&self.srcs, &std::mem::take(&mut self.rows))
        }
        fn len(&self) -> usize {
            self.rows.len()
        }
    }
    pub fn make_growable<'a>(arrays: &[&'a dyn Array], _use_validity: bool, capacity: usize) -> Box<dyn Growable<'a> + 'a> {
        assert!(!arrays.is_empty());
        let dt = arrays[0].data_type();
        assert!(arrays.iter().all(|a| a.data_type() == dt), "growable: arrays of different types");
        Box::new(G { srcs: arrays.to_vec(), rows: Vec::with_capacity(capacity) })
    }
}

// ---------------------------------------------------------------- page payloads
#[derive(serde::Serialize, serde::Deserialize)]
pub(crate) enum Enc {
    Prim(PrimitiveType, Vec<u8>, Option<Vec<bool>>),
    Bool(Vec<Option<bool>>),
    Utf8(Vec<Option<String>>),
    Bin(Vec<Option<Vec<u8>>>),
    List(Vec<u64>, Option<Vec<bool>>, Box<Enc>),
    Null(usize),
}
pub(crate) fn encode(a: &dyn Array) -> Enc {
    use PrimitiveType as P;
    macro_rules! p {
        ($t:ty) => {{
            let x = a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap();
            let mut b = Vec::with_capacity(x.len() * <$t as NativeType>::SIZE);
            for (i, v) in x.values_iter().enumerate() {
                if x.is_null(i) {
                    <$t>::default().put(&mut b)
                } else {
                    v.put(&mut b);
                }
            }
            Enc::Prim(<$t as NativeType>::PRIMITIVE, b, x.validity().map(|v| v.iter().collect()))
        }};
    }
    macro_rules! l {
        ($o:ty) => {{
            let x = a.as_any().downcast_ref::<ListArray<$o>>().unwrap();
            let base = x.offsets().buffer()[0] as usize;
            let end = *x.offsets().buffer().last().unwrap() as usize;
            Enc::List(
                x.offsets().buffer().iter().map(|o| (*o as usize - base) as u64).collect(),
                x.validity().map(|v| v.iter().collect()),
                Box::new(encode(x.values().sliced(base, end - base).as_ref())),
            )
        }};
    }
    match a.data_type().to_physical_type() {
        PhysicalType::Null => Enc::Null(a.len()),
        PhysicalType::Boolean => Enc::Bool(a.as_any().downcast_ref::<BooleanArray>().unwrap().iter().collect()),
        PhysicalType::Primitive(pt) => match pt {
            P::Int8 => p!(i8),
            P::Int16 => p!(i16),
            P::Int32 => p!(i32),
            P::Int64 => p!(i64),
            P::Int128 => p!(i128),
            P::UInt8 => p!(u8),
            P::UInt16 => p!(u16),
            P::UInt32 => p!(u32),
            P::UInt64 => p!(u64),
            P::Float32 => p!(f32),
            P::Float64 => p!(f64),
            p => unimplemented!("parquet of {p:?}"),
        },
        PhysicalType::Utf8 => Enc::Utf8(a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().iter().map(|x| x.map(|x| x.to_string())).collect()),
        PhysicalType::LargeUtf8 => Enc::Utf8(a.as_any().downcast_ref::<Utf8Array<i64>>().unwrap().iter().map(|x| x.map(|x| x.to_string())).collect()),
        PhysicalType::Binary => Enc::Bin(a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap().iter().map(|x| x.map(|x| x.to_vec())).collect()),
        PhysicalType::LargeBinary => Enc::Bin(a.as_any().downcast_ref::<BinaryArray<i64>>().unwrap().iter().map(|x| x.map(|x| x.to_vec())).collect()),
        PhysicalType::FixedSizeBinary => Enc::Bin(a.as_any().downcast_ref::<FixedSizeBinaryArray>().unwrap().iter().map(|x| x.map(|x| x.to_vec())).collect()),
        PhysicalType::List => l!(i32),
        PhysicalType::LargeList => l!(i64),
        p => unimplemented!("parquet of {p:?}"),
    }
}
pub(crate) fn decode(e: Enc, dt: &DataType) -> Result<Box<dyn Array>> {
    use PrimitiveType as P;
    let bad = || Error::oos(format!("page does not hold {dt:?}"));
    let phys = dt.to_physical_type();
    Ok(match e {
        Enc::Null(n) => Box::new(NullArray::new(dt.clone(), n)),
        Enc::Bool(v) => {
            if phys != PhysicalType::Boolean {
                return Err(bad());
            }
            Box::new(BooleanArray::from(v))
        }
        Enc::Prim(pt, b, valid) => {
            if phys != PhysicalType::Primitive(pt) {
                return Err(bad());
            }
            macro_rules! p {
                ($t:ty) => {
                    Box::new(PrimitiveArray::<$t>::try_new(
                        dt.clone(),
                        b.chunks(<$t as NativeType>::SIZE).map(<$t as NativeType>::take).collect(),
                        valid.map(|v| v.into()),
                    )?)
                };
            }
            match pt {
                P::Int8 => p!(i8),
                P::Int16 => p!(i16),
                P::Int32 => p!(i32),
                P::Int64 => p!(i64),
                P::Int128 => p!(i128),
                P::UInt8 => p!(u8),
                P::UInt16 => p!(u16),
                P::UInt32 => p!(u32),
                P::UInt64 => p!(u64),
                P::Float32 => p!(f32),
                P::Float64 => p!(f64),
                _ => return Err(bad()),
            }
        }
        Enc::Utf8(v) => match phys {
            PhysicalType::Utf8 => Box::new(Utf8Array::<i32>::build(v)),
            PhysicalType::LargeUtf8 => Box::new(Utf8Array::<i64>::build(v)),
            _ => return Err(bad()),
        },
        Enc::Bin(v) => match phys {
            PhysicalType::Binary => Box::new(BinaryArray::<i32>::build(v)),
            PhysicalType::LargeBinary => Box::new(BinaryArray::<i64>::build(v)),
            PhysicalType::FixedSizeBinary => {
                let DataType::FixedSizeBinary(s) = dt.to_logical_type() else { unreachable!() };
                Box::new(FixedSizeBinaryArray::from_iter(v, *s))
            }
            _ => return Err(bad()),
        },
        Enc::List(o, valid, k) => match phys {
            PhysicalType::List => Box::new(ListArray::<i32>::try_new(
                dt.clone(),
                OffsetsBuffer::from_vec(o.into_iter().map(|x| x as i32).collect()),
                decode(*k, ListArray::<i32>::get_child_type(dt))?,
                valid.map(|v| v.into()),
            )?),
            PhysicalType::LargeList => Box::new(ListArray::<i64>::try_new(
                dt.clone(),
                OffsetsBuffer::from_vec(o.into_iter().map(|x| x as i64).collect()),
                decode(*k, ListArray::<i64>::get_child_type(dt))?,
                valid.map(|v| v.into()),
            )?),
            _ => return Err(bad()),
        },
    })
}
