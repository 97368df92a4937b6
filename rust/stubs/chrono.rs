//! stand-in for the parts of chrono the backend's core uses
use std::fmt;
use std::ops::{Add, AddAssign, Sub};
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Utc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Duration(i64);
impl Duration {
    pub fn seconds(s: i64) -> Self { Duration(s * 1000) }
    pub fn milliseconds(s: i64) -> Self { Duration(s) }
    pub fn minutes(s: i64) -> Self { Duration(s * 60000) }
    pub fn hours(s: i64) -> Self { Duration(s * 3600000) }
    pub fn days(s: i64) -> Self { Duration(s * 86400000) }
    pub fn zero() -> Self { Duration(0) }
    pub fn num_milliseconds(&self) -> i64 { self.0 }
    pub fn num_seconds(&self) -> i64 { self.0 / 1000 }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DateTime<T>(i64, std::marker::PhantomData<T>);
impl DateTime<Utc> {
    pub const MIN_UTC: DateTime<Utc> = DateTime(-8334632851200000, std::marker::PhantomData);
    pub const MAX_UTC: DateTime<Utc> = DateTime(8210298412799999, std::marker::PhantomData);
    pub fn to_rfc3339(&self) -> String { format!("@{}", self.0) }
    pub fn timestamp_millis(&self) -> i64 { self.0 }
    pub fn signed_duration_since(self, o: Self) -> Duration { Duration(self.0 - o.0) }
    pub fn timestamp(&self) -> i64 { self.0 / 1000 }
}
/// dates are written @milliseconds
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FixedOffset;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "not a date") }
}
impl DateTime<FixedOffset> {
    pub fn with_timezone(&self, _: &Utc) -> DateTime<Utc> { DateTime(self.0, std::marker::PhantomData) }
}
impl DateTime<Utc> {
    pub fn parse_from_rfc3339(s: &str) -> Result<DateTime<FixedOffset>, ParseError> {
        s.strip_prefix('@').and_then(|s| s.parse().ok()).map(|n| DateTime(n, std::marker::PhantomData)).ok_or(ParseError)
    }
}
impl Utc {
    pub fn now() -> DateTime<Utc> { DateTime(0, std::marker::PhantomData) }
}
impl fmt::Display for DateTime<Utc> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "@{}", self.0) }
}
impl<T> Add<Duration> for DateTime<T> { type Output = Self; fn add(self, d: Duration) -> Self { DateTime(self.0 + d.0, self.1) } }
impl<T> AddAssign<Duration> for DateTime<T> { fn add_assign(&mut self, d: Duration) { self.0 += d.0 } }
impl<T> Sub<Duration> for DateTime<T> { type Output = Self; fn sub(self, d: Duration) -> Self { DateTime(self.0 - d.0, self.1) } }
impl<T> Sub<DateTime<T>> for DateTime<T> { type Output = Duration; fn sub(self, d: Self) -> Duration { Duration(self.0 - d.0) } }
impl Add for Duration { type Output = Self; fn add(self, d: Self) -> Self { Duration(self.0 + d.0) } }
