//! Protocol-buffers wire format for the types emitted by the `prost-build` stand-in.
use std::fmt;

pub mod alloc {
    pub use std::string;
    pub use std::vec;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(pub String);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}
impl std::error::Error for DecodeError {}
impl From<DecodeError> for std::io::Error {
    fn from(e: DecodeError) -> Self {
        std::io::Error::new(std::io::ErrorKind::InvalidData, e)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("encode error")
    }
}
impl std::error::Error for EncodeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UnknownEnumValue(pub i32);
impl fmt::Display for UnknownEnumValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "unknown enumeration value {}", self.0)
    }
}
impl std::error::Error for UnknownEnumValue {}

pub mod wire {
    use super::DecodeError;

    pub struct Rd<'a> {
        pub b: &'a [u8],
    }
    fn err<T>(s: &str) -> Result<T, DecodeError> {
        Err(DecodeError(s.to_string()))
    }
    impl<'a> Rd<'a> {
        pub fn varint(&mut self) -> Result<u64, DecodeError> {
            let mut v = 0u64;
            for i in 0..10 {
                let Some((h, t)) = self.b.split_first() else {
                    return err("invalid varint");
                };
                self.b = t;
                v |= ((*h & 0x7f) as u64) << (7 * i);
                if *h < 0x80 {
                    return Ok(v);
                }
            }
            err("invalid varint")
        }
        pub fn bytes(&mut self) -> Result<&'a [u8], DecodeError> {
            let n = self.varint()? as usize;
            if n > self.b.len() {
                return err("buffer underflow");
            }
            let (h, t) = self.b.split_at(n);
            self.b = t;
            Ok(h)
        }
        pub fn fixed<const N: usize>(&mut self) -> Result<[u8; N], DecodeError> {
            if self.b.len() < N {
                return err("buffer underflow");
            }
            let (h, t) = self.b.split_at(N);
            self.b = t;
            Ok(h.try_into().unwrap())
        }
        pub fn skip(&mut self, wt: u8) -> Result<(), DecodeError> {
            match wt {
                0 => {
                    self.varint()?;
                }
                1 => {
                    self.fixed::<8>()?;
                }
                2 => {
                    self.bytes()?;
                }
                5 => {
                    self.fixed::<4>()?;
                }
                _ => return err("invalid wire type value"),
            }
            Ok(())
        }
    }
    pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    pub fn key(out: &mut Vec<u8>, tag: u32, wt: u8) {
        put_varint(out, ((tag as u64) << 3) | wt as u64);
    }

    /// one scalar kind
    pub trait Scalar: Sized {
        const WT: u8;
        type T;
        fn put(v: &Self::T, out: &mut Vec<u8>);
        fn get(r: &mut Rd<'_>) -> Result<Self::T, DecodeError>;
        fn is_default(v: &Self::T) -> bool;
    }
    macro_rules! varint {
        ($n:ident,$t:ty,$to:expr,$from:expr) => {
            pub struct $n;
            impl Scalar for $n {
                const WT: u8 = 0;
                type T = $t;
                fn put(v: &$t, out: &mut Vec<u8>) {
                    let f: fn($t) -> u64 = $to;
                    put_varint(out, f(*v));
                }
                fn get(r: &mut Rd<'_>) -> Result<$t, DecodeError> {
                    let f: fn(u64) -> $t = $from;
                    Ok(f(r.varint()?))
                }
                fn is_default(v: &$t) -> bool {
                    *v == <$t>::default()
                }
            }
        };
    }
    varint!(Uint64, u64, |v| v, |v| v);
    varint!(Uint32, u32, |v| v as u64, |v| v as u32);
    varint!(Int64, i64, |v| v as u64, |v| v as i64);
    varint!(Int32, i32, |v| v as i64 as u64, |v| v as i32);
    varint!(Bool, bool, |v| v as u64, |v| v != 0);
    varint!(Sint64, i64, |v| ((v << 1) ^ (v >> 63)) as u64, |v| ((v >> 1) as i64)
        ^ -((v & 1) as i64));
    varint!(Sint32, i32, |v| ((v << 1) ^ (v >> 31)) as u32 as u64, |v| ((v as u32 >> 1) as i32)
        ^ -((v & 1) as i32));
    macro_rules! fixed {
        ($n:ident,$t:ty,$wt:expr,$sz:expr) => {
            pub struct $n;
            impl Scalar for $n {
                const WT: u8 = $wt;
                type T = $t;
                fn put(v: &$t, out: &mut Vec<u8>) {
                    out.extend_from_slice(&v.to_le_bytes());
                }
                fn get(r: &mut Rd<'_>) -> Result<$t, DecodeError> {
                    Ok(<$t>::from_le_bytes(r.fixed::<$sz>()?))
                }
                fn is_default(v: &$t) -> bool {
                    *v == <$t>::default()
                }
            }
        };
    }
    fixed!(Double, f64, 1, 8);
    fixed!(Float, f32, 5, 4);
    fixed!(Fixed64, u64, 1, 8);
    fixed!(Fixed32, u32, 5, 4);
    fixed!(Sfixed64, i64, 1, 8);
    fixed!(Sfixed32, i32, 5, 4);
    pub struct Str;
    impl Scalar for Str {
        const WT: u8 = 2;
        type T = String;
        fn put(v: &String, out: &mut Vec<u8>) {
            put_varint(out, v.len() as u64);
            out.extend_from_slice(v.as_bytes());
        }
        fn get(r: &mut Rd<'_>) -> Result<String, DecodeError> {
            String::from_utf8(r.bytes()?.to_vec())
                .map_err(|_| DecodeError("invalid string value: data is not UTF-8 encoded".into()))
        }
        fn is_default(v: &String) -> bool {
            v.is_empty()
        }
    }
    pub struct Bytes;
    impl Scalar for Bytes {
        const WT: u8 = 2;
        type T = Vec<u8>;
        fn put(v: &Vec<u8>, out: &mut Vec<u8>) {
            put_varint(out, v.len() as u64);
            out.extend_from_slice(v);
        }
        fn get(r: &mut Rd<'_>) -> Result<Vec<u8>, DecodeError> {
            Ok(r.bytes()?.to_vec())
        }
        fn is_default(v: &Vec<u8>) -> bool {
            v.is_empty()
        }
    }
    pub struct Msg<M>(std::marker::PhantomData<M>);
    impl<M: super::Message + Default> Scalar for Msg<M> {
        const WT: u8 = 2;
        type T = M;
        fn put(v: &M, out: &mut Vec<u8>) {
            let b = v.encode_to_vec();
            put_varint(out, b.len() as u64);
            out.extend_from_slice(&b);
        }
        fn get(r: &mut Rd<'_>) -> Result<M, DecodeError> {
            M::decode(r.bytes()?)
        }
        fn is_default(_: &M) -> bool {
            false
        }
    }

    pub fn want(wt: u8, w: u8) -> Result<(), DecodeError> {
        if wt != w {
            return err(&format!("invalid wire type: {wt} (expected {w})"));
        }
        Ok(())
    }
    pub fn put_one<S: Scalar>(tag: u32, v: &S::T, out: &mut Vec<u8>) {
        if !S::is_default(v) {
            key(out, tag, S::WT);
            S::put(v, out);
        }
    }
    pub fn put_opt<S: Scalar>(tag: u32, v: &Option<S::T>, out: &mut Vec<u8>) {
        if let Some(v) = v {
            key(out, tag, S::WT);
            S::put(v, out);
        }
    }
    pub fn put_rep<S: Scalar>(tag: u32, v: &[S::T], out: &mut Vec<u8>) {
        if v.is_empty() {
            return;
        }
        if S::WT == 2 {
            for x in v {
                key(out, tag, 2);
                S::put(x, out);
            }
        } else {
            let mut b = vec![];
            for x in v {
                S::put(x, &mut b);
            }
            key(out, tag, 2);
            put_varint(out, b.len() as u64);
            out.extend_from_slice(&b);
        }
    }
    pub fn get_one<S: Scalar>(wt: u8, r: &mut Rd<'_>) -> Result<S::T, DecodeError> {
        want(wt, S::WT)?;
        S::get(r)
    }
    pub fn get_rep<S: Scalar>(wt: u8, r: &mut Rd<'_>, v: &mut Vec<S::T>) -> Result<(), DecodeError> {
        if wt == 2 && S::WT != 2 {
            let mut s = Rd { b: r.bytes()? };
            while !s.b.is_empty() {
                v.push(S::get(&mut s)?);
            }
            return Ok(());
        }
        want(wt, S::WT)?;
        v.push(S::get(r)?);
        Ok(())
    }
}

pub trait Message: fmt::Debug + Send + Sync {
    #[doc(hidden)]
    fn put_fields(&self, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn merge_field(&mut self, tag: u32, wt: u8, r: &mut wire::Rd<'_>) -> Result<(), DecodeError>;

    fn encoded_len(&self) -> usize {
        let mut v = vec![];
        self.put_fields(&mut v);
        v.len()
    }
    fn encode_to_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put_fields(&mut v);
        v
    }
    fn encode<B: bytes::BufMut>(&self, buf: &mut B) -> Result<(), EncodeError>
    where Self: Sized {
        let v = self.encode_to_vec();
        if buf.remaining_mut() < v.len() {
            return Err(EncodeError);
        }
        buf.put_slice(&v);
        Ok(())
    }
    fn merge_slice(&mut self, b: &[u8]) -> Result<(), DecodeError> {
        let mut r = wire::Rd { b };
        while !r.b.is_empty() {
            let k = r.varint()?;
            let tag = (k >> 3) as u32;
            if tag == 0 {
                return Err(DecodeError("invalid tag value: 0".into()));
            }
            self.merge_field(tag, (k & 7) as u8, &mut r)?;
        }
        Ok(())
    }
    fn decode<B: bytes::Buf>(mut buf: B) -> Result<Self, DecodeError>
    where Self: Sized + Default {
        let b = buf.copy_to_bytes(buf.remaining());
        let mut m = Self::default();
        m.merge_slice(&b)?;
        Ok(m)
    }
    fn clear(&mut self)
    where Self: Sized + Default {
        *self = Self::default();
    }
}
