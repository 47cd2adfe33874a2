//! Stand-in for croner: five fields, each `*` or a number.
use std::fmt;

use chrono::DateTime;
use chrono::Datelike;
use chrono::Duration;
use chrono::TimeZone;
use chrono::Timelike;

#[derive(Debug)]
pub struct CronError(String);
impl fmt::Display for CronError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CronError {}

#[derive(Clone, Debug)]
pub struct Cron {
    src: String,
    f: [Option<u32>; 5],
}

impl Cron {
    pub fn new(s: &str) -> Cron {
        Cron { src: s.to_string(), f: [None; 5] }
    }

    pub fn parse(&mut self) -> Result<Cron, CronError> {
        let v: Vec<&str> = self.src.split_whitespace().collect();
        if v.len() != 5 {
            return Err(CronError("Pattern must consist of five or six fields".into()));
        }
        let lim = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 7)];
        for i in 0..5 {
            if v[i] != "*" {
                let n: u32 = v[i].parse().map_err(|_| CronError("bad component".into()))?;
                if n < lim[i].0 || n > lim[i].1 {
                    return Err(CronError("component out of range".into()));
                }
                self.f[i] = Some(n);
            }
        }
        Ok(self.clone())
    }

    pub fn find_next_occurrence<Tz: TimeZone>(
        &self,
        from: &DateTime<Tz>,
        inclusive: bool,
    ) -> Result<DateTime<Tz>, CronError> {
        let mut t = from.naive_utc();
        if !inclusive {
            t += Duration::seconds(1);
        }
        if t.second() != 0 || t.nanosecond() != 0 {
            t = t.with_second(0).unwrap().with_nanosecond(0).unwrap() + Duration::minutes(1);
        }
        let end = t + Duration::days(366 * 9);
        while t < end {
            let day = self.f[2].map_or(true, |d| d == t.day())
                && self.f[3].map_or(true, |m| m == t.month())
                && self.f[4].map_or(true, |w| w % 7 == t.weekday().num_days_from_sunday());
            if !day {
                t = (t.date() + Duration::days(1)).and_hms_opt(0, 0, 0).unwrap();
            } else if self.f[1].is_some_and(|h| h != t.hour()) {
                t = t.date().and_hms_opt(t.hour(), 0, 0).unwrap() + Duration::hours(1);
            } else if self.f[0].is_some_and(|m| m != t.minute()) {
                t += Duration::minutes(1);
            } else {
                return Ok(from.timezone().from_utc_datetime(&t));
            }
        }
        Err(CronError("CronScheduler time search limit exceeded.".into()))
    }
}
