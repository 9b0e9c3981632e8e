#[derive(Debug)]
pub struct JobSchedulerError(pub String);
impl std::fmt::Display for JobSchedulerError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JobSchedulerError {}
