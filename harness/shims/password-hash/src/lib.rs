//! Salted-hash stand-in with password-hash's surface.
use std::fmt;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    Password,
    PhcStringField,
    Algorithm,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone)]
pub struct SaltString(pub String);
pub trait Rng64 {
    fn r64(&mut self) -> u64;
}
impl SaltString {
    pub fn generate<R>(_rng: R) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1);
        SaltString(format!("{:016x}", mix(N.fetch_add(1, Ordering::Relaxed), 7)))
    }
}
pub fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_mul(0x9E3779B97F4A7C15);
    h = (h ^ (h >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94D049BB133111EB);
    h ^ (h >> 31)
}
pub trait PasswordHasher {
    fn digest(&self, password: &[u8], salt: &str) -> String {
        let mut out = String::new();
        for lane in 0..4u64 {
            let mut h = mix(lane + 1, 0x5151);
            for b in salt.bytes() {
                h = mix(h, b as u64 + 1);
            }
            h = mix(h, password.len() as u64 + 1000);
            for b in password {
                h = mix(h, *b as u64 + 1);
            }
            out.push_str(&format!("{h:016x}"));
        }
        out
    }
}
pub trait PasswordVerifier: PasswordHasher {}
impl<T: PasswordHasher> PasswordVerifier for T {}
#[derive(Debug, Clone)]
pub struct PasswordHash<'a> {
    salt: std::borrow::Cow<'a, str>,
    hash: std::borrow::Cow<'a, str>,
}
impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self, Error> {
        let mut p = s.split('$').skip(1);
        match (p.next(), p.next(), p.next()) {
            (Some("standin"), Some(s), Some(h)) => Ok(PasswordHash { salt: s.into(), hash: h.into() }),
            _ => Err(Error::PhcStringField),
        }
    }
    pub fn generate(
        phf: impl PasswordHasher,
        password: impl AsRef<[u8]>,
        salt: &'a SaltString,
    ) -> Result<Self, Error> {
        Ok(PasswordHash {
            hash: phf.digest(password.as_ref(), &salt.0).into(),
            salt: salt.0.as_str().into(),
        })
    }
    pub fn verify_password(
        &self,
        phfs: &[&dyn PasswordVerifier],
        password: impl AsRef<[u8]>,
    ) -> Result<(), Error> {
        for p in phfs {
            if p.digest(password.as_ref(), &self.salt) == self.hash {
                return Ok(());
            }
        }
        Err(Error::Password)
    }
}
impl fmt::Display for PasswordHash<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "$standin${}${}", self.salt, self.hash)
    }
}
