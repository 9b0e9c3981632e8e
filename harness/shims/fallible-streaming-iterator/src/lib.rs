pub trait FallibleStreamingIterator {
    type Item: ?Sized;
    type Error;
    fn advance(&mut self) -> Result<(), Self::Error>;
    fn get(&self) -> Option<&Self::Item>;
    fn next(&mut self) -> Result<Option<&Self::Item>, Self::Error> {
        self.advance()?;
        Ok((*self).get())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}
pub struct Convert<'a, I, T> {
    it: I,
    item: Option<&'a T>,
}
pub fn convert<'a, I, T, E>(it: I) -> Convert<'a, I, T>
where I: Iterator<Item = Result<&'a T, E>> {
    Convert { it, item: None }
}
impl<'a, I, T, E> FallibleStreamingIterator for Convert<'a, I, T>
where I: Iterator<Item = Result<&'a T, E>>
{
    type Item = T;
    type Error = E;
    fn advance(&mut self) -> Result<(), E> {
        self.item = match self.it.next() {
            Some(Ok(v)) => Some(v),
            Some(Err(e)) => return Err(e),
            None => None,
        };
        Ok(())
    }
    fn get(&self) -> Option<&T> {
        self.item
    }
}
