//! Stand-in for the demo data generator: only its error type is named by the server.
pub mod error {
    #[derive(Debug)]
    pub struct EventsGenError;
    impl std::fmt::Display for EventsGenError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("events-gen")
        }
    }
    impl std::error::Error for EventsGenError {}
}
