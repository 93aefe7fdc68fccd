pub use ::std::sync::*;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::time::Duration;

pub mod atomic;
pub mod mpsc;

fn key<T: ?Sized>(p: &T) -> usize { p as *const T as *const u8 as usize }

// ------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
	// never zero sized, so that addresses identify mutexes
	_pad: u8,
	inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
	m: &'a Mutex<T>,
	g: Option<real::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
	pub const fn new(t: T) -> Mutex<T> { Mutex { _pad: 0, inner: real::Mutex::new(t) } }
	pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
	fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> { MutexGuard { m: self, g: Some(g) } }
	pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
		simrt::yield_point("mutex.lock");
		loop {
			match self.inner.try_lock() {
				Ok(g) => return Ok(self.wrap(g)),
				// threads that unwind because the run has ended leave no poison behind
				Err(TryLockError::Poisoned(p)) if simrt::aborting() => return Ok(self.wrap(p.into_inner())),
				Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.wrap(p.into_inner()))),
				Err(TryLockError::WouldBlock) => {
					if simrt::in_sim() {
						simrt::block_on_key(key(&self._pad), None, "mutex.wait");
					} else {
						return match self.inner.lock() {
							Ok(g) => Ok(self.wrap(g)),
							Err(p) => Err(PoisonError::new(self.wrap(p.into_inner()))),
						};
					}
				}
			}
		}
	}
	pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
		simrt::yield_point("mutex.try_lock");
		match self.inner.try_lock() {
			Ok(g) => Ok(self.wrap(g)),
			Err(TryLockError::Poisoned(p)) if simrt::aborting() => Ok(self.wrap(p.into_inner())),
			Err(TryLockError::Poisoned(p)) => {
				Err(TryLockError::Poisoned(PoisonError::new(self.wrap(p.into_inner()))))
			}
			Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
		}
	}
	pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
	pub fn clear_poison(&self) {}
	pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
	fn drop(&mut self) {
		self.g = None;
		simrt::wake(key(&self.m._pad), usize::MAX);
		simrt::yield_point("mutex.unlock");
	}
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
	type Target = T;
	fn deref(&self) -> &T { self.g.as_ref().unwrap() }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
	fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() }
}
impl<T: Default> Default for Mutex<T> {
	fn default() -> Self { Mutex::new(T::default()) }
}
impl<T> From<T> for Mutex<T> {
	fn from(t: T) -> Self { Mutex::new(t) }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}

// ------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized> {
	_pad: u8,
	inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
	k: usize,
	g: Option<real::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
	k: usize,
	g: Option<real::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
	pub const fn new(t: T) -> RwLock<T> { RwLock { _pad: 0, inner: real::RwLock::new(t) } }
	pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
macro_rules! rw {
	($lock:ident, $try:ident, $guard:ident, $s1:expr, $s2:expr, $s3:expr) => {
		pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
			simrt::yield_point($s1);
			let k = key(&self._pad);
			loop {
				match self.inner.$try() {
					Ok(g) => return Ok($guard { k, g: Some(g) }),
					Err(TryLockError::Poisoned(p)) if simrt::aborting() => return Ok($guard { k, g: Some(p.into_inner()) }),
					Err(TryLockError::Poisoned(p)) => {
						return Err(PoisonError::new($guard { k, g: Some(p.into_inner()) }))
					}
					Err(TryLockError::WouldBlock) => {
						if simrt::in_sim() {
							simrt::block_on_key(k, None, $s2);
						} else {
							return match self.inner.$lock() {
								Ok(g) => Ok($guard { k, g: Some(g) }),
								Err(p) => Err(PoisonError::new($guard { k, g: Some(p.into_inner()) })),
							};
						}
					}
				}
			}
		}
		pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
			simrt::yield_point($s3);
			let k = key(&self._pad);
			match self.inner.$try() {
				Ok(g) => Ok($guard { k, g: Some(g) }),
				Err(TryLockError::Poisoned(p)) if simrt::aborting() => Ok($guard { k, g: Some(p.into_inner()) }),
				Err(TryLockError::Poisoned(p)) => {
					Err(TryLockError::Poisoned(PoisonError::new($guard { k, g: Some(p.into_inner()) })))
				}
				Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
			}
		}
	};
}
impl<T: ?Sized> RwLock<T> {
	rw!(read, try_read, RwLockReadGuard, "rw.read", "rw.read-wait", "rw.try_read");
	rw!(write, try_write, RwLockWriteGuard, "rw.write", "rw.write-wait", "rw.try_write");
	pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
	pub fn clear_poison(&self) {}
	pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
macro_rules! rwguard {
	($guard:ident) => {
		impl<'a, T: ?Sized> Drop for $guard<'a, T> {
			fn drop(&mut self) {
				self.g = None;
				simrt::wake(self.k, usize::MAX);
				simrt::yield_point("rw.unlock");
			}
		}
		impl<'a, T: ?Sized> Deref for $guard<'a, T> {
			type Target = T;
			fn deref(&self) -> &T { self.g.as_ref().unwrap() }
		}
		impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $guard<'a, T> {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
		}
	};
}
rwguard!(RwLockReadGuard);
rwguard!(RwLockWriteGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
	fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() }
}
impl<T: Default> Default for RwLock<T> {
	fn default() -> Self { RwLock::new(T::default()) }
}
impl<T> From<T> for RwLock<T> {
	fn from(t: T) -> Self { RwLock::new(t) }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}

// ------------------------------------------------------------ Condvar
#[derive(Debug)]
pub struct Condvar {
	_pad: u8,
}
impl Default for Condvar {
	fn default() -> Self { Condvar::new() }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
	pub fn timed_out(&self) -> bool { self.0 }
}
impl Condvar {
	pub const fn new() -> Condvar { Condvar { _pad: 0 } }
	pub fn notify_one(&self) {
		simrt::yield_point("cv.notify_one");
		simrt::wake(key(&self._pad), 1);
	}
	pub fn notify_all(&self) {
		simrt::yield_point("cv.notify_all");
		simrt::wake(key(&self._pad), usize::MAX);
	}
	fn wait_inner<'a, T>(&self, mut g: MutexGuard<'a, T>, dl: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
		let m = g.m;
		// release and block without a scheduling point in between
		g.g = None;
		simrt::wake(key(&m._pad), usize::MAX);
		::std::mem::forget(g);
		let woken = simrt::block_on_key(key(&self._pad), dl, "cv.wait");
		(m.lock(), !woken)
	}
	pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { self.wait_inner(g, None).0 }
	pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
		&self,
		mut g: MutexGuard<'a, T>,
		mut c: F,
	) -> LockResult<MutexGuard<'a, T>> {
		while c(&mut *g) {
			g = self.wait(g)?;
		}
		Ok(g)
	}
	pub fn wait_timeout<'a, T>(
		&self,
		g: MutexGuard<'a, T>,
		d: Duration,
	) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
		let dl = simrt::now_ns().saturating_add(d.as_nanos() as u64);
		let (r, to) = self.wait_inner(g, Some(dl));
		match r {
			Ok(g) => Ok((g, WaitTimeoutResult(to))),
			Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(to)))),
		}
	}
	pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
		&self,
		mut g: MutexGuard<'a, T>,
		d: Duration,
		mut c: F,
	) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
		let dl = simrt::now_ns().saturating_add(d.as_nanos() as u64);
		loop {
			if !c(&mut *g) {
				return Ok((g, WaitTimeoutResult(false)));
			}
			let now = simrt::now_ns();
			if now >= dl {
				return Ok((g, WaitTimeoutResult(true)));
			}
			g = self.wait_timeout(g, Duration::from_nanos(dl - now))?.0;
		}
	}
}

// ------------------------------------------------------------ Barrier
pub struct Barrier {
	n: usize,
	st: Mutex<(usize, usize)>,
	cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
	pub fn is_leader(&self) -> bool { self.0 }
}
impl Barrier {
	pub const fn new(n: usize) -> Barrier { Barrier { n, st: Mutex::new((0, 0)), cv: Condvar::new() } }
	pub fn wait(&self) -> BarrierWaitResult {
		let mut g = self.st.lock().unwrap();
		let gen = g.1;
		g.0 += 1;
		if g.0 >= self.n {
			g.0 = 0;
			g.1 += 1;
			self.cv.notify_all();
			return BarrierWaitResult(true);
		}
		while g.1 == gen {
			g = self.cv.wait(g).unwrap();
		}
		BarrierWaitResult(false)
	}
}

// ------------------------------------------------------------ Once
pub struct Once {
	st: Mutex<u8>,
	cv: Condvar,
}
impl Once {
	pub const fn new() -> Once { Once { st: Mutex::new(0), cv: Condvar::new() } }
	pub fn call_once<F: FnOnce()>(&self, f: F) {
		let mut g = self.st.lock().unwrap();
		loop {
			match *g {
				2 => return,
				0 => break,
				_ => g = self.cv.wait(g).unwrap(),
			}
		}
		*g = 1;
		drop(g);
		f();
		*self.st.lock().unwrap() = 2;
		self.cv.notify_all();
	}
	pub fn is_completed(&self) -> bool { *self.st.lock().unwrap() == 2 }
}
