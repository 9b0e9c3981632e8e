pub use get_size_derive::GetSize;
pub trait GetSize: Sized {
    fn get_size(&self) -> usize {
        std::mem::size_of::<Self>()
    }
}
