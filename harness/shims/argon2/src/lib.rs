pub enum Algorithm {
    Argon2d,
    Argon2i,
    Argon2id,
}
pub enum Version {
    V0x10,
    V0x13,
}
#[derive(Default)]
pub struct Params;
#[derive(Default)]
pub struct Argon2;
impl Argon2 {
    pub fn new(_: Algorithm, _: Version, _: Params) -> Self {
        Argon2
    }
}
impl password_hash::PasswordHasher for Argon2 {}
