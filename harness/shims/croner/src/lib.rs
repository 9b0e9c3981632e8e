//! Five-field cron patterns in UTC.
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike};

pub mod errors {
    #[derive(Debug)]
    pub enum CronError {
        InvalidPattern(String),
        InvalidDate,
        TimeSearchLimitExceeded,
    }
    impl std::fmt::Display for CronError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for CronError {}
}
use errors::CronError;

#[derive(Debug, Clone)]
pub struct Cron {
    pattern: String,
    /// minute, hour, day of month, month, day of week
    sets: Vec<Vec<bool>>,
    stars: Vec<bool>,
}
impl Cron {
    pub fn new(p: &str) -> Self {
        Cron { pattern: p.to_string(), sets: vec![], stars: vec![] }
    }
    pub fn parse(&mut self) -> Result<Cron, CronError> {
        let bad = || CronError::InvalidPattern(self.pattern.clone());
        let named = match self.pattern.trim() {
            "@hourly" => "0 * * * *",
            "@daily" | "@midnight" => "0 0 * * *",
            "@weekly" => "0 0 * * 0",
            "@monthly" => "0 0 1 * *",
            "@yearly" | "@annually" => "0 0 1 1 *",
            o => o,
        };
        let fields: Vec<&str> = named.split_whitespace().collect();
        if fields.len() != 5 {
            return Err(bad());
        }
        let lim = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 7)];
        let (mut sets, mut stars) = (vec![], vec![]);
        for (f, (lo, hi)) in fields.iter().zip(lim) {
            let mut set = vec![false; 60];
            for part in f.split(',') {
                let (range, step) = match part.split_once('/') {
                    Some((r, s)) => (r, s.parse::<usize>().map_err(|_| bad())?),
                    None => (part, 1),
                };
                let (a, b) = if range == "*" || range == "?" {
                    (lo, hi)
                } else if let Some((a, b)) = range.split_once('-') {
                    (a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?)
                } else {
                    let v: usize = range.parse().map_err(|_| bad())?;
                    (v, v)
                };
                if step == 0 || a < lo || b > hi || a > b {
                    return Err(bad());
                }
                (a..=b).step_by(step).for_each(|i| set[i] = true);
            }
            sets.push(set);
            stars.push(*f == "*" || *f == "?");
        }
        sets[4][0] |= sets[4][7];
        self.sets = sets;
        self.stars = stars;
        Ok(self.clone())
    }
    fn on<Tz: TimeZone>(&self, t: &DateTime<Tz>) -> bool {
        let dom = self.sets[2][t.day() as usize];
        let dow = self.sets[4][t.weekday().num_days_from_sunday() as usize];
        let day = if self.stars[2] || self.stars[4] { dom && dow } else { dom || dow };
        self.sets[3][t.month() as usize] && day
    }
    pub fn is_time_matching<Tz: TimeZone>(&self, t: &DateTime<Tz>) -> Result<bool, CronError> {
        Ok(self.on(t) && self.sets[1][t.hour() as usize] && self.sets[0][t.minute() as usize] && t.second() == 0)
    }
    pub fn find_next_occurrence<Tz: TimeZone>(&self, from: &DateTime<Tz>, inclusive: bool) -> Result<DateTime<Tz>, CronError> {
        let mut t = from.clone() - Duration::nanoseconds(from.nanosecond() as i64);
        if t != *from || !inclusive {
            t += Duration::seconds(1);
        }
        if t.second() != 0 {
            t += Duration::seconds(60 - t.second() as i64);
        }
        for _ in 0..2_000_000 {
            if !self.on(&t) || !self.sets[1][t.hour() as usize] {
                t += Duration::minutes(60 - t.minute() as i64);
            } else if !self.sets[0][t.minute() as usize] {
                t += Duration::minutes(1);
            } else {
                return Ok(t);
            }
        }
        Err(CronError::TimeSearchLimitExceeded)
    }
}
