//! Stand-in for rust_decimal: signed 96-bit decimal with a scale of at most 28.
use std::cmp::Ordering;
use std::fmt;
use std::hash::Hash;
use std::hash::Hasher;
use std::ops;
use std::str::FromStr;

pub use num_traits::FromPrimitive;
pub use num_traits::ToPrimitive;

pub mod prelude {
    pub use num_traits::FromPrimitive;
    pub use num_traits::One;
    pub use num_traits::ToPrimitive;
    pub use num_traits::Zero;

    pub use crate::Decimal;
    pub use crate::RoundingStrategy;
    pub use std::str::FromStr;
}

const MAX: i128 = 79_228_162_514_264_337_593_543_950_335;
const MAX_SCALE: u32 = 28;

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    ErrorString(String),
    ExceedsMaximumPossibleValue,
    LessThanMinimumPossibleValue,
    Underflow,
    ScaleExceedsMaximumPrecision(u32),
    ConversionTo(String),
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ErrorString(s) => write!(f, "{s}"),
            Error::ExceedsMaximumPossibleValue => write!(f, "Number exceeds maximum value that can be represented."),
            Error::LessThanMinimumPossibleValue => write!(f, "Number less than minimum value that can be represented."),
            Error::Underflow => write!(f, "Number has a high precision that can not be represented."),
            Error::ScaleExceedsMaximumPrecision(s) => {
                write!(f, "Scale exceeds the maximum precision allowed: {s} > {MAX_SCALE}")
            }
            Error::ConversionTo(s) => write!(f, "Error while converting to {s}"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RoundingStrategy {
    MidpointNearestEven,
    MidpointAwayFromZero,
    MidpointTowardZero,
    ToZero,
    AwayFromZero,
    ToNegativeInfinity,
    ToPositiveInfinity,
}

#[derive(Clone, Copy, Default)]
pub struct Decimal {
    m: i128,
    s: u32,
}

fn pow10(n: u32) -> i128 {
    10i128.pow(n)
}

fn div_round(m: i128, d: i128, st: RoundingStrategy) -> i128 {
    let q = m / d;
    let r = m % d;
    if r == 0 {
        return q;
    }
    let sg = if m < 0 { -1 } else { 1 };
    let twice = (r * 2).abs().cmp(&d);
    match st {
        RoundingStrategy::ToZero => q,
        RoundingStrategy::AwayFromZero => q + sg,
        RoundingStrategy::ToNegativeInfinity => q - (sg < 0) as i128,
        RoundingStrategy::ToPositiveInfinity => q + (sg > 0) as i128,
        _ => match twice {
            Ordering::Less => q,
            Ordering::Greater => q + sg,
            Ordering::Equal => match st {
                RoundingStrategy::MidpointAwayFromZero => q + sg,
                RoundingStrategy::MidpointTowardZero => q,
                _ => {
                    if q % 2 == 0 {
                        q
                    } else {
                        q + sg
                    }
                }
            },
        },
    }
}

impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub const ONE: Decimal = Decimal { m: 1, s: 0 };
    pub const ONE_HUNDRED: Decimal = Decimal { m: 100, s: 0 };
    pub const MAX: Decimal = Decimal { m: MAX, s: 0 };
    pub const MIN: Decimal = Decimal { m: -MAX, s: 0 };
    pub const MAX_SCALE: u32 = MAX_SCALE;

    pub fn new(num: i64, scale: u32) -> Decimal {
        Self::try_new(num, scale).unwrap()
    }

    pub fn try_new(num: i64, scale: u32) -> Result<Decimal, Error> {
        Self::try_from_i128_with_scale(num as i128, scale)
    }

    pub fn from_i128_with_scale(num: i128, scale: u32) -> Decimal {
        Self::try_from_i128_with_scale(num, scale).unwrap()
    }

    pub fn try_from_i128_with_scale(num: i128, scale: u32) -> Result<Decimal, Error> {
        if scale > MAX_SCALE {
            return Err(Error::ScaleExceedsMaximumPrecision(scale));
        }
        if num > MAX {
            return Err(Error::ExceedsMaximumPossibleValue);
        }
        if num < -MAX {
            return Err(Error::LessThanMinimumPossibleValue);
        }
        Ok(Decimal { m: num, s: scale })
    }

    pub const fn scale(&self) -> u32 {
        self.s
    }

    pub const fn mantissa(&self) -> i128 {
        self.m
    }

    pub const fn is_zero(&self) -> bool {
        self.m == 0
    }

    pub fn is_sign_negative(&self) -> bool {
        self.m < 0
    }

    pub fn is_integer(&self) -> bool {
        self.m % pow10(self.s) == 0
    }

    pub fn abs(&self) -> Decimal {
        Decimal { m: self.m.abs(), s: self.s }
    }

    pub fn rescale(&mut self, scale: u32) {
        let scale = scale.min(MAX_SCALE);
        if scale < self.s {
            self.m = div_round(self.m, pow10(self.s - scale), RoundingStrategy::MidpointAwayFromZero);
            self.s = scale;
        } else {
            while self.s < scale {
                match self.m.checked_mul(10) {
                    Some(v) if v.abs() <= MAX => {
                        self.m = v;
                        self.s += 1;
                    }
                    _ => break,
                }
            }
        }
    }

    pub fn round_dp_with_strategy(&self, dp: u32, st: RoundingStrategy) -> Decimal {
        if dp >= self.s {
            return *self;
        }
        Decimal { m: div_round(self.m, pow10(self.s - dp), st), s: dp }
    }

    pub fn round_dp(&self, dp: u32) -> Decimal {
        self.round_dp_with_strategy(dp, RoundingStrategy::MidpointNearestEven)
    }

    pub fn round(&self) -> Decimal {
        self.round_dp(0)
    }

    pub fn trunc(&self) -> Decimal {
        self.round_dp_with_strategy(0, RoundingStrategy::ToZero)
    }

    pub fn normalize(&self) -> Decimal {
        let mut d = *self;
        if d.m == 0 {
            return Decimal::ZERO;
        }
        while d.s > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        d
    }

    pub fn from_str_exact(s: &str) -> Result<Decimal, Error> {
        s.parse()
    }

    fn align(a: Decimal, b: Decimal) -> (i128, i128, u32) {
        let s = a.s.max(b.s);
        (
            a.m.checked_mul(pow10(s - a.s)).expect("decimal overflow"),
            b.m.checked_mul(pow10(s - b.s)).expect("decimal overflow"),
            s,
        )
    }

    fn fit(mut m: i128, mut s: u32) -> Option<Decimal> {
        while (m.abs() > MAX || s > MAX_SCALE) && s > 0 {
            m = div_round(m, 10, RoundingStrategy::MidpointNearestEven);
            s -= 1;
        }
        if m.abs() > MAX {
            None
        } else {
            Some(Decimal { m, s })
        }
    }

    pub fn checked_add(self, o: Decimal) -> Option<Decimal> {
        let (a, b, s) = Self::align(self, o);
        Self::fit(a + b, s)
    }

    pub fn checked_mul(self, o: Decimal) -> Option<Decimal> {
        Self::fit(self.m.checked_mul(o.m)?, self.s + o.s)
    }

    pub fn checked_div(self, o: Decimal) -> Option<Decimal> {
        if o.m == 0 {
            return None;
        }
        let mut m = self.m;
        let mut s = self.s;
        while s < MAX_SCALE + o.s {
            match m.checked_mul(10) {
                Some(v) => {
                    m = v;
                    s += 1;
                }
                None => break,
            }
        }
        if s < o.s {
            m = m.checked_mul(pow10(o.s - s))?;
            s = o.s;
        }
        Self::fit(div_round(m, o.m, RoundingStrategy::MidpointNearestEven), s - o.s).map(|d| d.normalize())
    }
}

impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let digits = self.m.unsigned_abs().to_string();
        let s = self.s as usize;
        let t = if s == 0 {
            digits
        } else {
            let digits = format!("{:0>1$}", digits, s + 1);
            format!("{}.{}", &digits[..digits.len() - s], &digits[digits.len() - s..])
        };
        f.pad_integral(self.m >= 0, "", &t)
    }
}

impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl FromStr for Decimal {
    type Err = Error;

    fn from_str(v: &str) -> Result<Decimal, Error> {
        let bad = || Error::ErrorString("Invalid decimal: unknown character".to_string());
        let (neg, t) = match v.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, v.strip_prefix('+').unwrap_or(v)),
        };
        let (i, f) = t.split_once('.').unwrap_or((t, ""));
        if i.is_empty() && f.is_empty() {
            return Err(bad());
        }
        if !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
            return Err(bad());
        }
        let mut m: i128 = 0;
        let mut s = 0;
        for c in i.bytes() {
            m = m * 10 + (c - b'0') as i128;
            if m > MAX {
                return Err(Error::ExceedsMaximumPossibleValue);
            }
        }
        for c in f.bytes() {
            let n = m * 10 + (c - b'0') as i128;
            if n > MAX || s == MAX_SCALE {
                if c >= b'5' {
                    m += 1;
                }
                break;
            }
            m = n;
            s += 1;
        }
        Ok(Decimal { m: if neg { -m } else { m }, s })
    }
}

impl FromPrimitive for Decimal {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Decimal { m: n as i128, s: 0 })
    }

    fn from_u64(n: u64) -> Option<Self> {
        Some(Decimal { m: n as i128, s: 0 })
    }

    fn from_i128(n: i128) -> Option<Self> {
        Self::try_from_i128_with_scale(n, 0).ok()
    }

    fn from_f64(n: f64) -> Option<Self> {
        if !n.is_finite() || n.abs() > MAX as f64 {
            return None;
        }
        if n == 0.0 {
            return Some(Decimal::ZERO);
        }
        // about 15 significant digits are kept
        let e = format!("{:.14e}", n);
        let (dig, exp) = e.split_once('e')?;
        let exp: i32 = exp.parse().ok()?;
        let neg = dig.starts_with('-');
        let dig: String = dig.chars().filter(|c| c.is_ascii_digit()).collect();
        let mut m: i128 = dig.parse().ok()?;
        let mut s: i32 = dig.len() as i32 - 1 - exp;
        while m % 10 == 0 && s > 0 {
            m /= 10;
            s -= 1;
        }
        while s < 0 {
            m *= 10;
            s += 1;
        }
        while s > MAX_SCALE as i32 {
            m = div_round(m, 10, RoundingStrategy::MidpointNearestEven);
            s -= 1;
            if m == 0 {
                return Some(Decimal::ZERO);
            }
        }
        Self::try_from_i128_with_scale(if neg { -m } else { m }, s as u32).ok()
    }

    fn from_f32(n: f32) -> Option<Self> {
        Self::from_f64(n as f64)
    }
}

impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.trunc().m).ok()
    }

    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.trunc().m).ok()
    }

    fn to_i128(&self) -> Option<i128> {
        Some(self.trunc().m)
    }

    fn to_u128(&self) -> Option<u128> {
        u128::try_from(self.trunc().m).ok()
    }

    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}

impl num_traits::Zero for Decimal {
    fn zero() -> Self {
        Decimal::ZERO
    }

    fn is_zero(&self) -> bool {
        self.m == 0
    }
}

impl num_traits::One for Decimal {
    fn one() -> Self {
        Decimal::ONE
    }
}

impl PartialEq for Decimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Decimal {}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = (self.normalize(), o.normalize());
        match (
            a.m.checked_mul(pow10(a.s.max(b.s) - a.s)),
            b.m.checked_mul(pow10(a.s.max(b.s) - b.s)),
        ) {
            (Some(x), Some(y)) => x.cmp(&y),
            _ => self.to_f64().partial_cmp(&o.to_f64()).unwrap(),
        }
    }
}
impl Hash for Decimal {
    fn hash<H: Hasher>(&self, st: &mut H) {
        let d = self.normalize();
        d.m.hash(st);
        d.s.hash(st);
    }
}

macro_rules! from_int {
    ($($t:ty)+) => {$(
        impl From<$t> for Decimal {
            fn from(v: $t) -> Decimal {
                Decimal::from_i128_with_scale(v as i128, 0)
            }
        }
    )+}
}
from_int!(i8 i16 i32 i64 i128 u8 u16 u32 u64 usize isize);

impl TryFrom<f64> for Decimal {
    type Error = Error;

    fn try_from(v: f64) -> Result<Self, Error> {
        Decimal::from_f64(v).ok_or_else(|| Error::ConversionTo("Decimal".into()))
    }
}
impl TryFrom<f32> for Decimal {
    type Error = Error;

    fn try_from(v: f32) -> Result<Self, Error> {
        Decimal::from_f32(v).ok_or_else(|| Error::ConversionTo("Decimal".into()))
    }
}
impl TryFrom<Decimal> for f64 {
    type Error = Error;

    fn try_from(v: Decimal) -> Result<Self, Error> {
        v.to_f64().ok_or_else(|| Error::ConversionTo("f64".into()))
    }
}

impl ops::Neg for Decimal {
    type Output = Decimal;

    fn neg(self) -> Decimal {
        Decimal { m: -self.m, s: self.s }
    }
}
impl ops::Add for Decimal {
    type Output = Decimal;

    fn add(self, o: Decimal) -> Decimal {
        self.checked_add(o).expect("Addition overflowed")
    }
}
impl ops::Sub for Decimal {
    type Output = Decimal;

    fn sub(self, o: Decimal) -> Decimal {
        self.checked_add(-o).expect("Subtraction overflowed")
    }
}
impl ops::Mul for Decimal {
    type Output = Decimal;

    fn mul(self, o: Decimal) -> Decimal {
        self.checked_mul(o).expect("Multiplication overflowed")
    }
}
impl ops::Div for Decimal {
    type Output = Decimal;

    fn div(self, o: Decimal) -> Decimal {
        self.checked_div(o).expect("Division by zero or overflow")
    }
}
impl ops::AddAssign for Decimal {
    fn add_assign(&mut self, o: Decimal) {
        *self = *self + o;
    }
}

impl serde::Serialize for Decimal {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        #[cfg(feature = "serde-float")]
        return s.serialize_f64(self.to_f64().unwrap());
        #[cfg(not(feature = "serde-float"))]
        s.serialize_str(&self.to_string())
    }
}

struct V;
impl<'de> serde::de::Visitor<'de> for V {
    type Value = Decimal;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "a Decimal type representing a fixed-point number")
    }

    fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Decimal, E> {
        Ok(v.into())
    }

    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Decimal, E> {
        Ok(v.into())
    }

    fn visit_f64<E: serde::de::Error>(self, v: f64) -> Result<Decimal, E> {
        Decimal::from_f64(v).ok_or_else(|| E::invalid_value(serde::de::Unexpected::Float(v), &self))
    }

    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Decimal, E> {
        v.parse().map_err(|_| E::invalid_value(serde::de::Unexpected::Str(v), &self))
    }
}

impl<'de> serde::Deserialize<'de> for Decimal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
        d.deserialize_any(V)
    }
}

pub mod serde_float {
    pub use super::float::*;
}

pub mod float {
    use super::*;

    pub fn serialize<S: serde::Serializer>(v: &Decimal, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_f64(v.to_f64().unwrap())
    }

    pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
        d.deserialize_any(V)
    }
}
