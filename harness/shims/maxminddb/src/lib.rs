//! Stand-in database: UTF-8 lines `ip|country|city`, an empty field meaning "no record".
use std::collections::BTreeMap;
use std::fmt;
use std::net::IpAddr;
use std::path::Path;

#[derive(Debug, PartialEq, Eq)]
pub enum MaxMindDBError {
    AddressNotFoundError(String),
    InvalidDatabaseError(String),
    IoError(String),
    MapError(String),
    DecodingError(String),
    InvalidNetworkError(String),
}
impl fmt::Display for MaxMindDBError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MaxMindDBError {}

#[derive(Debug, Clone)]
pub struct Reader<S: AsRef<[u8]>> {
    pub buf: S,
}
impl Reader<Vec<u8>> {
    pub fn open_readfile<P: AsRef<Path>>(p: P) -> Result<Self, MaxMindDBError> {
        Ok(Reader {
            buf: std::fs::read(p).map_err(|e| MaxMindDBError::IoError(e.to_string()))?,
        })
    }
}
pub trait FromRecord<'de>: Sized {
    fn from_record(country: &'de str, city: &'de str) -> Self;
}
impl<'de> FromRecord<'de> for geoip2::City<'de> {
    fn from_record(country: &'de str, city: &'de str) -> Self {
        let names = |s: &'de str| Some(BTreeMap::from([("en", s), ("de", "not-en")]));
        geoip2::City {
            country: (!country.is_empty()).then(|| geoip2::country::Country {
                iso_code: None,
                names: names(country),
            }),
            city: (!city.is_empty()).then(|| geoip2::city::City { names: names(city) }),
        }
    }
}
impl<S: AsRef<[u8]>> Reader<S> {
    pub fn from_source(buf: S) -> Result<Self, MaxMindDBError> {
        std::str::from_utf8(buf.as_ref())
            .map_err(|e| MaxMindDBError::InvalidDatabaseError(e.to_string()))?;
        Ok(Reader { buf })
    }
    pub fn lookup<'de, T: FromRecord<'de>>(&'de self, ip: IpAddr) -> Result<T, MaxMindDBError> {
        let s = std::str::from_utf8(self.buf.as_ref()).unwrap_or("");
        let ip = ip.to_string();
        for l in s.lines() {
            let mut p = l.split('|');
            if p.next() == Some(ip.as_str()) {
                let c = p.next().unwrap_or("");
                return Ok(T::from_record(c, p.next().unwrap_or("")));
            }
        }
        Err(MaxMindDBError::AddressNotFoundError(
            "Address not found in database".into(),
        ))
    }
}
pub mod geoip2 {
    #[derive(Debug, Clone)]
    pub struct City<'a> {
        pub city: Option<city::City<'a>>,
        pub country: Option<country::Country<'a>>,
    }
    pub mod city {
        use std::collections::BTreeMap;
        #[derive(Debug, Clone)]
        pub struct City<'a> {
            pub names: Option<BTreeMap<&'a str, &'a str>>,
        }
    }
    pub mod country {
        use std::collections::BTreeMap;
        #[derive(Debug, Clone)]
        pub struct Country<'a> {
            pub iso_code: Option<&'a str>,
            pub names: Option<BTreeMap<&'a str, &'a str>>,
        }
    }
}
