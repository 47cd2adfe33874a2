//! Stand-in: only the error type is named.
pub mod error {
    #[derive(Debug)]
    pub struct ErrorStack;
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("openssl")
        }
    }
    impl std::error::Error for ErrorStack {}
}
