use std::sync::Arc;

use crate::error::Error;
use crate::types::Index;
pub trait Offset: Index + num_traits::Num + num_traits::CheckedAdd {
    const IS_LARGE: bool;
    fn from_usize_(v: usize) -> Option<Self>;
}
impl Offset for i32 {
    const IS_LARGE: bool = false;
    fn from_usize_(v: usize) -> Option<Self> {
        v.try_into().ok()
    }
}
impl Offset for i64 {
    const IS_LARGE: bool = true;
    fn from_usize_(v: usize) -> Option<Self> {
        v.try_into().ok()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct OffsetsBuffer<O: Offset> {
    b: Arc<Vec<O>>,
    off: usize,
    n: usize, // number of offsets
}
impl<O: Offset> OffsetsBuffer<O> {
    pub(crate) fn from_vec(v: Vec<O>) -> Self {
        let n = v.len();
        OffsetsBuffer { b: Arc::new(v), off: 0, n }
    }
    pub fn start_end(&self, i: usize) -> (usize, usize) {
        assert!(i + 1 < self.n);
        (self.b[self.off + i].to_usize(), self.b[self.off + i + 1].to_usize())
    }
    pub fn len_proxy(&self) -> usize {
        self.n - 1
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn buffer(&self) -> &[O] {
        &self.b[self.off..self.off + self.n]
    }
    pub(crate) fn slice(&mut self, off: usize, rows: usize) {
        assert!(off + rows < self.n);
        self.off += off;
        self.n = rows + 1;
    }
}
impl<O: Offset> TryFrom<Vec<O>> for OffsetsBuffer<O> {
    type Error = Error;
    fn try_from(v: Vec<O>) -> Result<Self, Error> {
        if v.is_empty() || v.windows(2).any(|w| w[0] > w[1]) {
            return Err(Error::oos("offsets must be monotonically increasing"));
        }
        Ok(Self::from_vec(v))
    }
}
#[derive(Clone, Debug)]
pub struct Offsets<O: Offset>(pub(crate) Vec<O>);
impl<O: Offset> From<Offsets<O>> for OffsetsBuffer<O> {
    fn from(o: Offsets<O>) -> Self {
        OffsetsBuffer::from_vec(o.0)
    }
}
