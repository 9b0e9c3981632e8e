pub mod parse {
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
    /// "1 day 2 hours 3s": numbers with units, which add up.
    pub fn parse(s: &str) -> Result<std::time::Duration, Error> {
        let mut secs = 0f64;
        let mut rest = s.trim();
        if rest.is_empty() {
            return Err(Error("no value".into()));
        }
        while !rest.is_empty() {
            let n = rest.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(rest.len());
            let num: f64 = rest[..n].parse().map_err(|_| Error(format!("no number in {s:?}")))?;
            rest = rest[n..].trim_start();
            let n = rest.find(|c: char| !c.is_alphabetic()).unwrap_or(rest.len());
            let unit = match rest[..n].to_lowercase().as_str() {
                "ms" | "milliseconds" | "millisecond" => 0.001,
                "s" | "sec" | "secs" | "second" | "seconds" | "" => 1.0,
                "m" | "min" | "mins" | "minute" | "minutes" => 60.0,
                "h" | "hr" | "hrs" | "hour" | "hours" => 3600.0,
                "d" | "day" | "days" => 86400.0,
                "w" | "week" | "weeks" => 604800.0,
                u => return Err(Error(format!("no unit {u:?}"))),
            };
            secs += num * unit;
            rest = rest[n..].trim_start();
        }
        Ok(std::time::Duration::from_millis((secs * 1000.0).round() as u64))
    }
}
pub use parse::parse;
