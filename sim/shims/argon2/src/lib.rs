//! See password-hash.
#[derive(Default)]
pub struct Argon2;
pub enum Algorithm {
    Argon2d,
}
pub enum Version {
    V0x10,
}
#[derive(Default)]
pub struct Params;

impl Argon2 {
    pub fn new(_a: Algorithm, _v: Version, _p: Params) -> Self {
        Argon2
    }
}
impl password_hash::PasswordHasher for Argon2 {}
impl password_hash::PasswordVerifier for Argon2 {}
