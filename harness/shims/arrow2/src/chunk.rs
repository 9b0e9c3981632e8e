use crate::array::Array;
use crate::error::Error;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Chunk<A: AsRef<dyn Array>> {
    arrays: Vec<A>,
}
impl<A: AsRef<dyn Array>> Chunk<A> {
    pub fn new(arrays: Vec<A>) -> Self {
        Self::try_new(arrays).unwrap()
    }
    pub fn try_new(arrays: Vec<A>) -> Result<Self, Error> {
        if let Some(f) = arrays.first() {
            let n = f.as_ref().len();
            if arrays.iter().any(|a| a.as_ref().len() != n) {
                return Err(Error::InvalidArgumentError(
                    "Chunk require all its arrays to have an equal number of rows".to_string(),
                ));
            }
        }
        Ok(Chunk { arrays })
    }
    pub fn arrays(&self) -> &[A] {
        &self.arrays
    }
    pub fn columns(&self) -> &[A] {
        &self.arrays
    }
    pub fn len(&self) -> usize {
        self.arrays.first().map(|x| x.as_ref().len()).unwrap_or(0)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn into_arrays(self) -> Vec<A> {
        self.arrays
    }
}
impl<A: AsRef<dyn Array>> std::ops::Deref for Chunk<A> {
    type Target = [A];
    fn deref(&self) -> &[A] {
        &self.arrays
    }
}
impl<A: AsRef<dyn Array>> From<Chunk<A>> for Vec<A> {
    fn from(c: Chunk<A>) -> Self {
        c.into_arrays()
    }
}
