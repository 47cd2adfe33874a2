//! Stand-in: `<n><unit>`.
pub mod parse {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("duration")
        }
    }
    impl std::error::Error for Error {}
}
pub fn parse(s: &str) -> Result<std::time::Duration, parse::Error> {
    let i = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    let n: u64 = s[..i].parse().map_err(|_| parse::Error)?;
    let k = match s[i..].trim() {
        "" | "s" => 1,
        "m" => 60,
        "h" => 3600,
        "d" => 86400,
        "w" => 604800,
        _ => return Err(parse::Error),
    };
    Ok(std::time::Duration::from_secs(n * k))
}
