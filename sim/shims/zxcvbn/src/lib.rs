//! Stand-in for zxcvbn: the score grows with the length.
use std::fmt;

#[derive(Debug)]
pub enum ZxcvbnError {
    BlankPassword,
}
impl fmt::Display for ZxcvbnError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Zxcvbn cannot evaluate a blank password")
    }
}
impl std::error::Error for ZxcvbnError {}

pub struct Entropy(u8);
impl Entropy {
    pub fn score(&self) -> u8 {
        self.0
    }
}

pub fn zxcvbn(pwd: &str, inputs: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if pwd.is_empty() {
        return Err(ZxcvbnError::BlankPassword);
    }
    if inputs.contains(&pwd) {
        return Ok(Entropy(0));
    }
    Ok(Entropy((pwd.len() / 3).min(4) as u8))
}
