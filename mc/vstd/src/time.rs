pub use std::time::{Duration, SystemTimeError, TryFromFloatSecsError};

use crate::rt;
use std::fmt;
use std::ops::{Add, AddAssign, Sub, SubAssign};

fn ns(d: Duration) -> Option<u64> {
    u64::try_from(d.as_nanos()).ok()
}

// Wide enough for any Duration to be added, as the real type is.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u128);

impl Instant {
    pub fn now() -> Instant {
        rt::point();
        Instant(rt::now() as u128)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.checked_duration_since(o).unwrap_or_default()
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.checked_duration_since(o).unwrap_or_default()
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        let d = self.0.checked_sub(o.0)?;
        Some(Duration::new((d / 1_000_000_000) as u64, (d % 1_000_000_000) as u32))
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        // the real clock overflows at i64 seconds
        let v = self.0 + d.as_nanos();
        if v / 1_000_000_000 > i64::MAX as u128 {
            return None;
        }
        Some(Instant(v))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d.as_nanos()).map(Instant)
    }
    /// For the harness: nanoseconds on the virtual clock.
    pub fn as_virtual_ns(&self) -> u128 {
        self.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Instant({})", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(std::time::SystemTime);
pub const UNIX_EPOCH: SystemTime = SystemTime(std::time::UNIX_EPOCH);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> SystemTime {
        rt::point();
        SystemTime(std::time::UNIX_EPOCH + Duration::from_nanos(1_700_000_000_000_000_000) + Duration::from_nanos(rt::now()))
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(o.0)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        Self::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl fmt::Debug for SystemTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}

#[allow(dead_code)]
pub(crate) fn to_ns(d: Duration) -> u64 {
    ns(d).unwrap_or(u64::MAX / 4)
}
