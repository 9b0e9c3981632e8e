pub mod error {
#[derive(Debug)]
pub struct ErrorStack(pub String);
impl std::fmt::Display for ErrorStack {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ErrorStack {}
}
