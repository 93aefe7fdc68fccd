pub use ::std::time::*;
use ::std::fmt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

fn raw_now() -> Duration {
	if simrt::in_sim() {
		Duration::from_nanos(simrt::now_ns())
	} else {
		static START: ::std::sync::OnceLock<::std::time::Instant> = ::std::sync::OnceLock::new();
		START.get_or_init(::std::time::Instant::now).elapsed()
	}
}

macro_rules! clock {
	($n:ident, $base:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		pub struct $n(Duration);
		impl $n {
			pub fn now() -> $n { $n(raw_now() + $base) }
			pub fn checked_add(&self, d: Duration) -> Option<$n> { self.0.checked_add(d).map($n) }
			pub fn checked_sub(&self, d: Duration) -> Option<$n> { self.0.checked_sub(d).map($n) }
		}
		impl Add<Duration> for $n {
			type Output = $n;
			fn add(self, d: Duration) -> $n { $n(self.0 + d) }
		}
		impl Sub<Duration> for $n {
			type Output = $n;
			fn sub(self, d: Duration) -> $n { $n(self.0 - d) }
		}
		impl AddAssign<Duration> for $n {
			fn add_assign(&mut self, d: Duration) { self.0 += d }
		}
		impl SubAssign<Duration> for $n {
			fn sub_assign(&mut self, d: Duration) { self.0 -= d }
		}
		impl fmt::Debug for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) }
		}
	};
}
clock!(Instant, Duration::ZERO);
clock!(SystemTime, Duration::from_secs(1_700_000_000));

impl Instant {
	pub fn elapsed(&self) -> Duration { raw_now().saturating_sub(self.0) }
	pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
	pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
	pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) }
}
impl Sub<Instant> for Instant {
	type Output = Duration;
	fn sub(self, o: Instant) -> Duration { self.duration_since(o) }
}
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
	pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
	pub fn elapsed(&self) -> Result<Duration, ()> { SystemTime::now().duration_since(*self) }
	pub fn duration_since(&self, o: SystemTime) -> Result<Duration, ()> { self.0.checked_sub(o.0).ok_or(()) }
}
