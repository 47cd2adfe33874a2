//! Stand-in: only the error type is named.
#[derive(Debug)]
pub struct JobSchedulerError;
impl std::fmt::Display for JobSchedulerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scheduler")
    }
}
impl std::error::Error for JobSchedulerError {}
