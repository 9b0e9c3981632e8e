use std::sync::Arc;
#[derive(Clone, PartialEq, Eq)]
pub struct Bitmap {
    b: Arc<Vec<bool>>,
    off: usize,
    len: usize,
}
impl std::fmt::Debug for Bitmap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl Bitmap {
    pub fn new_zeroed(n: usize) -> Self {
        vec![false; n].into()
    }
    pub fn get_bit(&self, i: usize) -> bool {
        assert!(i < self.len);
        self.b[self.off + i]
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        self.b[self.off..self.off + self.len].iter().copied()
    }
    pub fn unset_bits(&self) -> usize {
        self.iter().filter(|x| !x).count()
    }
    pub fn slice(&mut self, off: usize, len: usize) {
        assert!(off + len <= self.len);
        self.off += off;
        self.len = len;
    }
    pub fn sliced(mut self, off: usize, len: usize) -> Self {
        self.slice(off, len);
        self
    }
}
impl From<Vec<bool>> for Bitmap {
    fn from(v: Vec<bool>) -> Self {
        let len = v.len();
        Bitmap { b: Arc::new(v), off: 0, len }
    }
}
impl<const N: usize> From<[bool; N]> for Bitmap {
    fn from(v: [bool; N]) -> Self {
        v.to_vec().into()
    }
}
impl FromIterator<bool> for Bitmap {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        i.into_iter().collect::<Vec<_>>().into()
    }
}
#[derive(Clone, Debug, Default)]
pub struct MutableBitmap {
    v: Vec<bool>,
}
impl MutableBitmap {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        MutableBitmap { v: Vec::with_capacity(n) }
    }
    pub fn push(&mut self, b: bool) {
        self.v.push(b)
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
}
impl From<MutableBitmap> for Bitmap {
    fn from(m: MutableBitmap) -> Self {
        m.v.into()
    }
}
