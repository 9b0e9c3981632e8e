//! Stand-in parser over a synthetic header: `;`-separated `key=value` pairs
//! (uf, um, un, up: user agent; df, db, dm: device; of, om, on, op, oq: system).
use std::borrow::Cow;
use std::collections::HashMap;
type S<'a> = Cow<'a, str>;
#[derive(Debug, Clone)]
pub struct UserAgent<'a> {
    pub family: S<'a>,
    pub major: Option<S<'a>>,
    pub minor: Option<S<'a>>,
    pub patch: Option<S<'a>>,
}
#[derive(Debug, Clone)]
pub struct Device<'a> {
    pub family: S<'a>,
    pub brand: Option<S<'a>>,
    pub model: Option<S<'a>>,
}
#[derive(Debug, Clone)]
pub struct OS<'a> {
    pub family: S<'a>,
    pub major: Option<S<'a>>,
    pub minor: Option<S<'a>>,
    pub patch: Option<S<'a>>,
    pub patch_minor: Option<S<'a>>,
}
#[derive(Debug, Clone)]
pub struct Client<'a> {
    pub device: Device<'a>,
    pub os: OS<'a>,
    pub user_agent: UserAgent<'a>,
}
pub trait Parser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a>;
}
#[derive(Debug, Clone, Default)]
pub struct UserAgentParser;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ua parser")
    }
}
impl std::error::Error for Error {}
impl UserAgentParser {
    pub fn from_file(_: std::fs::File) -> Result<Self, Error> {
        Ok(Self)
    }
    pub fn from_yaml(_: &str) -> Result<Self, Error> {
        Ok(Self)
    }
    pub fn from_bytes(_: &[u8]) -> Result<Self, Error> {
        Ok(Self)
    }
}
impl Parser for UserAgentParser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a> {
        let m: HashMap<&'a str, &'a str> = ua.split(';').filter_map(|p| p.split_once('=')).collect();
        let o = |k: &str| m.get(k).map(|v| Cow::Borrowed(*v));
        let f = |k: &str| o(k).unwrap_or(Cow::Borrowed("Other"));
        Client {
            device: Device { family: f("df"), brand: o("db"), model: o("dm") },
            os: OS {
                family: f("of"),
                major: o("om"),
                minor: o("on"),
                patch: o("op"),
                patch_minor: o("oq"),
            },
            user_agent: UserAgent { family: f("uf"), major: o("um"), minor: o("un"), patch: o("up") },
        }
    }
}
