//! Minimal stand-in for `prost`: the proto3 wire format for generated messages.
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError {
    msg: String,
}
impl DecodeError {
    pub fn new(msg: impl Into<String>) -> Self {
        DecodeError { msg: msg.into() }
    }
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.msg)
    }
}
impl std::error::Error for DecodeError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to encode Protobuf message")
    }
}
impl std::error::Error for EncodeError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UnknownEnumValue(pub i32);
impl fmt::Display for UnknownEnumValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "unknown enumeration value {}", self.0)
    }
}
impl std::error::Error for UnknownEnumValue {}

pub trait Message: Default + Clone + fmt::Debug {
    #[doc(hidden)]
    fn __enc(&self, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn __merge_field(&mut self, tag: u32, wire: u8, r: &mut rt::Reader<'_>) -> Result<(), DecodeError>;

    fn encode_to_vec(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.__enc(&mut v);
        v
    }
    fn encoded_len(&self) -> usize {
        self.encode_to_vec().len()
    }
    fn encode(&self, buf: &mut Vec<u8>) -> Result<(), EncodeError> {
        self.__enc(buf);
        Ok(())
    }
    fn decode<B: Buf>(buf: B) -> Result<Self, DecodeError> {
        let mut m = Self::default();
        m.__merge(&mut rt::Reader::new(buf.chunk()))?;
        Ok(m)
    }
    fn merge<B: Buf>(&mut self, buf: B) -> Result<(), DecodeError> {
        self.__merge(&mut rt::Reader::new(buf.chunk()))
    }
    fn clear(&mut self) {
        *self = Self::default();
    }
    #[doc(hidden)]
    fn __merge(&mut self, r: &mut rt::Reader<'_>) -> Result<(), DecodeError> {
        while !r.done() {
            let k = r.varint()?;
            let tag = (k >> 3) as u32;
            if tag == 0 {
                return Err(DecodeError::new("invalid tag value: 0"));
            }
            self.__merge_field(tag, (k & 7) as u8, r)?;
        }
        Ok(())
    }
}

pub mod rt {
    use super::DecodeError;
    pub struct Reader<'a> {
        b: &'a [u8],
        p: usize,
    }
    impl<'a> Reader<'a> {
        pub fn new(b: &'a [u8]) -> Self {
            Reader { b, p: 0 }
        }
        pub fn done(&self) -> bool {
            self.p >= self.b.len()
        }
        pub fn varint(&mut self) -> Result<u64, DecodeError> {
            let mut v = 0u64;
            for i in 0..10 {
                let b = *self.b.get(self.p).ok_or_else(|| DecodeError::new("buffer underflow"))?;
                self.p += 1;
                v |= ((b & 0x7f) as u64) << (7 * i);
                if b & 0x80 == 0 {
                    return Ok(v);
                }
            }
            Err(DecodeError::new("invalid varint"))
        }
        pub fn take(&mut self, n: usize) -> Result<&'a [u8], DecodeError> {
            if self.b.len() - self.p < n {
                return Err(DecodeError::new("buffer underflow"));
            }
            let s = &self.b[self.p..self.p + n];
            self.p += n;
            Ok(s)
        }
        pub fn bytes(&mut self, wire: u8) -> Result<&'a [u8], DecodeError> {
            check(wire, 2)?;
            let n = self.varint()? as usize;
            self.take(n)
        }
        pub fn scalar(&mut self, wire: u8) -> Result<u64, DecodeError> {
            check(wire, 0)?;
            self.varint()
        }
        pub fn string(&mut self, wire: u8) -> Result<String, DecodeError> {
            String::from_utf8(self.bytes(wire)?.to_vec())
                .map_err(|_| DecodeError::new("invalid string value: data is not UTF-8 encoded"))
        }
        pub fn skip(&mut self, wire: u8) -> Result<(), DecodeError> {
            match wire {
                0 => {
                    self.varint()?;
                }
                1 => {
                    self.take(8)?;
                }
                2 => {
                    let n = self.varint()? as usize;
                    self.take(n)?;
                }
                5 => {
                    self.take(4)?;
                }
                w => return Err(DecodeError::new(format!("invalid wire type value: {w}"))),
            }
            Ok(())
        }
        /// repeated scalar: packed or not
        pub fn repeated(&mut self, wire: u8, mut f: impl FnMut(u64)) -> Result<(), DecodeError> {
            if wire == 2 {
                let b = self.bytes(2)?;
                let mut r = Reader::new(b);
                while !r.done() {
                    f(r.varint()?);
                }
                Ok(())
            } else {
                f(self.scalar(wire)?);
                Ok(())
            }
        }
        pub fn fixed64(&mut self, wire: u8) -> Result<u64, DecodeError> {
            check(wire, 1)?;
            Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
        }
        pub fn fixed32(&mut self, wire: u8) -> Result<u32, DecodeError> {
            check(wire, 5)?;
            Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
        }
    }
    fn check(wire: u8, want: u8) -> Result<(), DecodeError> {
        if wire != want {
            return Err(DecodeError::new(format!("invalid wire type: {wire} (expected {want})")));
        }
        Ok(())
    }
    pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
        while v >= 0x80 {
            out.push((v as u8) | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    pub fn put_key(tag: u32, wire: u8, out: &mut Vec<u8>) {
        put_varint(((tag as u64) << 3) | wire as u64, out)
    }
    pub fn put_scalar(tag: u32, v: u64, out: &mut Vec<u8>) {
        put_key(tag, 0, out);
        put_varint(v, out);
    }
    pub fn put_bytes(tag: u32, v: &[u8], out: &mut Vec<u8>) {
        put_key(tag, 2, out);
        put_varint(v.len() as u64, out);
        out.extend_from_slice(v);
    }
    pub fn put_fixed64(tag: u32, v: u64, out: &mut Vec<u8>) {
        put_key(tag, 1, out);
        out.extend_from_slice(&v.to_le_bytes());
    }
    pub fn put_fixed32(tag: u32, v: u32, out: &mut Vec<u8>) {
        put_key(tag, 5, out);
        out.extend_from_slice(&v.to_le_bytes());
    }
    pub fn zz_enc(v: i64) -> u64 {
        ((v << 1) ^ (v >> 63)) as u64
    }
    pub fn zz_dec(v: u64) -> i64 {
        ((v >> 1) as i64) ^ -((v & 1) as i64)
    }
}

/// The inputs `decode` takes here.
pub trait Buf {
    fn chunk(&self) -> &[u8];
}
impl Buf for &[u8] {
    fn chunk(&self) -> &[u8] {
        self
    }
}
