//! Small exact-decimal stand-in: |mantissa| < 2^96, 0 <= scale <= 28.
use std::cmp::Ordering;
use std::fmt;
use std::ops;
use std::str::FromStr;

pub mod prelude {
    pub use num_traits::FromPrimitive;
    pub use num_traits::One;
    pub use num_traits::Signed;
    pub use num_traits::ToPrimitive;
    pub use num_traits::Zero;

    pub use super::Decimal;
}
use num_traits::FromPrimitive;
use num_traits::ToPrimitive;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    ErrorString(String),
    ExceedsMaximumPossibleValue,
    LessThanMinimumPossibleValue,
    Underflow,
    ScaleExceedsMaximumPrecision(u32),
    ConversionTo(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

const MAXM: i128 = (1i128 << 96) - 1;

#[derive(Clone, Copy, Default)]
pub struct Decimal {
    m: i128,
    s: u32,
}

fn p10(n: u32) -> i128 {
    10i128.pow(n)
}
/// division rounding half away from zero
fn div_round(a: i128, b: i128) -> i128 {
    let q = a / b;
    let r = a % b;
    if r.abs() * 2 >= b.abs() {
        q + a.signum() * b.signum()
    } else {
        q
    }
}

impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub const ONE: Decimal = Decimal { m: 1, s: 0 };
    pub fn new(num: i64, scale: u32) -> Self {
        Self::from_i128_with_scale(num as i128, scale)
    }
    pub fn try_new(num: i64, scale: u32) -> Result<Self, Error> {
        Self::try_from_i128_with_scale(num as i128, scale)
    }
    pub fn from_i128_with_scale(num: i128, scale: u32) -> Self {
        Self::try_from_i128_with_scale(num, scale).unwrap()
    }
    pub fn try_from_i128_with_scale(num: i128, scale: u32) -> Result<Self, Error> {
        if scale > 28 {
            return Err(Error::ScaleExceedsMaximumPrecision(scale));
        }
        if num > MAXM {
            return Err(Error::ExceedsMaximumPossibleValue);
        }
        if num < -MAXM {
            return Err(Error::LessThanMinimumPossibleValue);
        }
        Ok(Decimal { m: num, s: scale })
    }
    pub fn scale(&self) -> u32 {
        self.s
    }
    pub fn mantissa(&self) -> i128 {
        self.m
    }
    pub fn fract(&self) -> Self {
        *self - self.trunc()
    }
    pub fn is_integer(&self) -> bool {
        *self == self.trunc()
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    pub fn is_sign_negative(&self) -> bool {
        self.m < 0
    }
    pub fn abs(&self) -> Self {
        Decimal { m: self.m.abs(), s: self.s }
    }
    pub fn rescale(&mut self, scale: u32) {
        if scale == self.s {
            return;
        }
        if scale > self.s {
            let mut s = self.s;
            while s < scale && s < 28 {
                match self.m.checked_mul(10) {
                    Some(x) if x.abs() <= MAXM => {
                        self.m = x;
                        s += 1;
                    }
                    _ => break,
                }
            }
            self.s = s;
        } else {
            self.m = div_round(self.m, p10(self.s - scale));
            self.s = scale;
        }
    }
    pub fn round_dp(&self, dp: u32) -> Self {
        let mut d = *self;
        if d.s > dp {
            d.rescale(dp);
        }
        d
    }
    pub fn round(&self) -> Self {
        self.round_dp(0)
    }
    pub fn trunc(&self) -> Self {
        Decimal { m: self.m / p10(self.s), s: 0 }
    }
    pub fn normalize(&self) -> Self {
        let mut d = *self;
        while d.s > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        d
    }
    pub fn from_str_exact(s: &str) -> Result<Self, Error> {
        parse(s, true)
    }
    pub fn checked_mul(self, o: Decimal) -> Option<Decimal> {
        let m = self.m.checked_mul(o.m)?;
        fit(m, self.s + o.s)
    }
    pub fn checked_div(self, o: Decimal) -> Option<Decimal> {
        if o.m == 0 {
            return None;
        }
        let a = self.normalize();
        let b = o.normalize();
        let mut m = a.m;
        let mut s = a.s as i32 - b.s as i32;
        while s < 28 && m.abs() < p10(36) / 10 && m % b.m != 0 {
            m *= 10;
            s += 1;
        }
        let mut q = div_round(m, b.m);
        while s < 0 {
            q = q.checked_mul(10)?;
            s += 1;
        }
        fit(q, s as u32)
    }
    pub fn checked_add(self, o: Decimal) -> Option<Decimal> {
        let s = self.s.max(o.s);
        let a = self.m.checked_mul(p10(s - self.s))?;
        let b = o.m.checked_mul(p10(s - o.s))?;
        fit(a.checked_add(b)?, s)
    }
    pub fn checked_sub(self, o: Decimal) -> Option<Decimal> {
        self.checked_add(-o)
    }
    pub fn from_f64_retain(v: f64) -> Option<Self> {
        if !v.is_finite() {
            return None;
        }
        parse(&format!("{v:.20}"), false).ok().map(|d| d.normalize())
    }
}
fn fit(mut m: i128, mut s: u32) -> Option<Decimal> {
    while (m.abs() > MAXM || s > 28) && s > 0 {
        m = div_round(m, 10);
        s -= 1;
    }
    if m.abs() > MAXM {
        None
    } else {
        Some(Decimal { m, s })
    }
}
fn parse(s: &str, exact: bool) -> Result<Decimal, Error> {
    let e = || Error::ErrorString("Invalid decimal: unknown character".into());
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        None => return Err(Error::ErrorString("Invalid decimal: empty".into())),
        _ => (false, s),
    };
    let (ip, fp) = match body.find('.') {
        Some(i) => (&body[..i], &body[i + 1..]),
        None => (body, ""),
    };
    if ip.is_empty() && fp.is_empty() {
        return Err(Error::ErrorString("Invalid decimal: no digits found".into()));
    }
    let mut m: i128 = 0;
    let mut sc = 0;
    let mut round: Option<u8> = None;
    for (i, b) in ip.bytes().chain(fp.bytes()).enumerate() {
        if b == b'_' {
            continue;
        }
        if !b.is_ascii_digit() {
            return Err(e());
        }
        let frac = i >= ip.len();
        let d = (b - b'0') as i128;
        if round.is_some() {
            continue;
        }
        let nm = m * 10 + d;
        if nm > MAXM || (frac && sc >= 28) {
            if !frac {
                return Err(Error::ExceedsMaximumPossibleValue);
            }
            if exact {
                return Err(Error::Underflow);
            }
            round = Some(d as u8);
            continue;
        }
        m = nm;
        if frac {
            sc += 1;
        }
    }
    if round.map(|d| d >= 5).unwrap_or(false) {
        m += 1;
    }
    Ok(Decimal { m: if neg { -m } else { m }, s: sc })
}
impl FromStr for Decimal {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        parse(s, false)
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let a = self.m.unsigned_abs();
        let p = p10(self.s) as u128;
        if self.m < 0 {
            f.write_str("-")?;
        }
        if self.s == 0 {
            write!(f, "{a}")
        } else {
            write!(f, "{}.{:0w$}", a / p, a % p, w = self.s as usize)
        }
    }
}
impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl PartialEq for Decimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Decimal {}
impl std::hash::Hash for Decimal {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        let n = self.normalize();
        (n.m, if n.m == 0 { 0 } else { n.s }).hash(h)
    }
}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let (ai, bi) = (self.m.div_euclid(p10(self.s)), o.m.div_euclid(p10(o.s)));
        ai.cmp(&bi).then_with(|| {
            let a = self.m.rem_euclid(p10(self.s)) * p10(28 - self.s);
            let b = o.m.rem_euclid(p10(o.s)) * p10(28 - o.s);
            a.cmp(&b)
        })
    }
}
impl ops::Neg for Decimal {
    type Output = Decimal;
    fn neg(self) -> Decimal {
        Decimal { m: -self.m, s: self.s }
    }
}
macro_rules! op {
    ($t:ident,$f:ident,$c:ident,$at:ident,$af:ident) => {
        impl ops::$t for Decimal {
            type Output = Decimal;
            fn $f(self, o: Decimal) -> Decimal {
                self.$c(o).expect("decimal overflow")
            }
        }
        impl ops::$at for Decimal {
            fn $af(&mut self, o: Decimal) {
                *self = self.$c(o).expect("decimal overflow")
            }
        }
    };
}
op!(Add, add, checked_add, AddAssign, add_assign);
op!(Sub, sub, checked_sub, SubAssign, sub_assign);
op!(Mul, mul, checked_mul, MulAssign, mul_assign);
op!(Div, div, checked_div, DivAssign, div_assign);
impl ops::Rem for Decimal {
    type Output = Decimal;
    fn rem(self, o: Decimal) -> Decimal {
        let s = self.s.max(o.s);
        Decimal { m: (self.m * p10(s - self.s)) % (o.m * p10(s - o.s)), s }
    }
}
macro_rules! from_int { ($($t:ty)*) => { $( impl From<$t> for Decimal { fn from(v: $t) -> Self { Decimal { m: v as i128, s: 0 } } } )* } }
from_int!(i8 i16 i32 i64 u8 u16 u32 u64 isize usize);
impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.m / p10(self.s)).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.m / p10(self.s)).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.m / p10(self.s))
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl FromPrimitive for Decimal {
    fn from_i64(v: i64) -> Option<Self> {
        Some(v.into())
    }
    fn from_u64(v: u64) -> Option<Self> {
        Some(v.into())
    }
    fn from_i128(v: i128) -> Option<Self> {
        Decimal::try_from_i128_with_scale(v, 0).ok()
    }
    fn from_f64(v: f64) -> Option<Self> {
        if !v.is_finite() || v.abs() > MAXM as f64 {
            return None;
        }
        if v == 0.0 {
            return Some(Decimal::ZERO);
        }
        // about 15-16 significant digits, as rust_decimal keeps for f64
        let e = v.abs().log10().floor() as i32;
        let dp = (15 - e).clamp(0, 28) as usize;
        parse(&format!("{v:.dp$}"), false).ok().map(|d| d.normalize())
    }
    fn from_f32(v: f32) -> Option<Self> {
        Self::from_f64(v as f64)
    }
}
impl TryFrom<f64> for Decimal {
    type Error = Error;
    fn try_from(v: f64) -> Result<Self, Error> {
        Self::from_f64(v).ok_or(Error::ConversionTo("Decimal".into()))
    }
}
impl TryFrom<Decimal> for f64 {
    type Error = Error;
    fn try_from(v: Decimal) -> Result<Self, Error> {
        v.to_f64().ok_or(Error::ConversionTo("f64".into()))
    }
}
macro_rules! try_int { ($($t:ty,$f:ident;)*) => { $( impl TryFrom<Decimal> for $t { type Error = Error; fn try_from(v: Decimal) -> Result<Self, Error> { v.$f().ok_or(Error::ConversionTo(stringify!($t).into())) } } )* } }
try_int!(i8,to_i8; i16,to_i16; i32,to_i32; i64,to_i64; u8,to_u8; u16,to_u16; u32,to_u32; u64,to_u64;);
impl num_traits::Zero for Decimal {
    fn zero() -> Self {
        Self::ZERO
    }
    fn is_zero(&self) -> bool {
        self.m == 0
    }
}
impl num_traits::One for Decimal {
    fn one() -> Self {
        Self::ONE
    }
}
impl serde::Serialize for Decimal {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_f64(self.to_f64().unwrap())
    }
}
impl<'de> serde::Deserialize<'de> for Decimal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Decimal;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a Decimal type representing a fixed-point number")
            }
            fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Decimal, E> {
                Ok(v.into())
            }
            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Decimal, E> {
                Ok(v.into())
            }
            fn visit_f64<E: serde::de::Error>(self, v: f64) -> Result<Decimal, E> {
                Decimal::from_str(&v.to_string()).map_err(|_| E::invalid_value(serde::de::Unexpected::Float(v), &self))
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Decimal, E> {
                Decimal::from_str(v).map_err(|_| E::invalid_value(serde::de::Unexpected::Str(v), &self))
            }
        }
        d.deserialize_any(V)
    }
}
impl std::iter::Sum for Decimal {
    fn sum<I: Iterator<Item = Decimal>>(i: I) -> Decimal {
        i.fold(Decimal::ZERO, |a, b| a + b)
    }
}
