//! Stand-in for password-hash and argon2: `$sim$<salt>$<sha256(salt, password)>`; fast, not a password hash.
use std::fmt;

use sha2::Digest;
use sha2::Sha256;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Password,
    PhcStringField,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Error::Password => "invalid password",
            Error::PhcStringField => "password hash string missing field",
        })
    }
}
impl std::error::Error for Error {}

pub struct SaltString(String);

impl SaltString {
    pub fn generate(mut rng: impl rand::RngCore) -> Self {
        let mut b = [0u8; 8];
        rng.fill_bytes(&mut b);
        SaltString(hex(&b))
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|v| format!("{v:02x}")).collect()
}

fn digest(salt: &str, pwd: &[u8]) -> String {
    let mut h = Sha256::new();
    h.update(salt.as_bytes());
    h.update([0]);
    h.update(pwd);
    hex(&h.finalize()[..16])
}

pub trait PasswordHasher {}
pub trait PasswordVerifier {}

pub struct PasswordHash<'a> {
    salt: std::borrow::Cow<'a, str>,
    hash: std::borrow::Cow<'a, str>,
}

impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self, Error> {
        let mut it = s.split('$');
        if it.next() != Some("") || it.next() != Some("sim") {
            return Err(Error::PhcStringField);
        }
        Ok(PasswordHash {
            salt: it.next().ok_or(Error::PhcStringField)?.into(),
            hash: it.next().ok_or(Error::PhcStringField)?.into(),
        })
    }

    pub fn generate(_phf: impl PasswordHasher, pwd: impl AsRef<[u8]>, salt: &'a SaltString) -> Result<Self, Error> {
        Ok(PasswordHash {
            salt: salt.0.as_str().into(),
            hash: digest(&salt.0, pwd.as_ref()).into(),
        })
    }

    pub fn verify_password(&self, _phfs: &[&dyn PasswordVerifier], pwd: impl AsRef<[u8]>) -> Result<(), Error> {
        if digest(&self.salt, pwd.as_ref()) == self.hash {
            Ok(())
        } else {
            Err(Error::Password)
        }
    }
}

impl fmt::Display for PasswordHash<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "$sim${}${}", self.salt, self.hash)
    }
}
