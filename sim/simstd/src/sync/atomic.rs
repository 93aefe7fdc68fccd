pub use ::std::sync::atomic::*;
use ::std::fmt;
use ::std::sync::atomic as real;

pub fn fence(o: Ordering) {
	simrt::yield_point("fence");
	real::fence(o)
}

macro_rules! common {
	($n:ident, $t:ty) => {
		#[repr(transparent)]
		pub struct $n(real::$n);
		impl $n {
			pub const fn new(v: $t) -> $n { $n(real::$n::new(v)) }
			pub fn load(&self, o: Ordering) -> $t {
				simrt::yield_point("atomic.load");
				self.0.load(o)
			}
			pub fn store(&self, v: $t, o: Ordering) {
				simrt::yield_point("atomic.store");
				self.0.store(v, o)
			}
			pub fn swap(&self, v: $t, o: Ordering) -> $t {
				simrt::yield_point("atomic.swap");
				self.0.swap(v, o)
			}
			pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
				simrt::yield_point("atomic.cas");
				self.0.compare_exchange(a, b, s, f)
			}
			pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
				simrt::yield_point("atomic.cas");
				self.0.compare_exchange(a, b, s, f)
			}
			pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
				simrt::yield_point("atomic.cas");
				match self.0.compare_exchange(a, b, o, Ordering::SeqCst) {
					Ok(x) => x,
					Err(x) => x,
				}
			}
			pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
				&self,
				s: Ordering,
				f: Ordering,
				mut g: F,
			) -> Result<$t, $t> {
				let mut p = self.load(f);
				while let Some(n) = g(p) {
					match self.compare_exchange(p, n, s, f) {
						x @ Ok(_) => return x,
						Err(x) => p = x,
					}
				}
				Err(p)
			}
			pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
			pub fn into_inner(self) -> $t { self.0.into_inner() }
			pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
		}
		impl fmt::Debug for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
		}
		impl Default for $n {
			fn default() -> $n { $n::new(Default::default()) }
		}
		impl From<$t> for $n {
			fn from(v: $t) -> $n { $n::new(v) }
		}
	};
}
macro_rules! rmw {
	($n:ident, $t:ty, $($op:ident)*) => {
		impl $n {
			$(pub fn $op(&self, v: $t, o: Ordering) -> $t {
				simrt::yield_point("atomic.rmw");
				self.0.$op(v, o)
			})*
		}
	};
}
macro_rules! int {
	($($n:ident $t:ty;)*) => { $(
		common!($n, $t);
		rmw!($n, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
	)* };
}
int! { AtomicI8 i8; AtomicU8 u8; AtomicI16 i16; AtomicU16 u16; AtomicI32 i32; AtomicU32 u32; AtomicI64 i64; AtomicU64 u64; AtomicIsize isize; AtomicUsize usize; }
common!(AtomicBool, bool);
rmw!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);

pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
	pub const fn new(v: *mut T) -> Self { AtomicPtr(real::AtomicPtr::new(v)) }
	pub fn load(&self, o: Ordering) -> *mut T {
		simrt::yield_point("atomic.load");
		self.0.load(o)
	}
	pub fn store(&self, v: *mut T, o: Ordering) {
		simrt::yield_point("atomic.store");
		self.0.store(v, o)
	}
	pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
		simrt::yield_point("atomic.swap");
		self.0.swap(v, o)
	}
	pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
		simrt::yield_point("atomic.cas");
		self.0.compare_exchange(a, b, s, f)
	}
	pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
		self.compare_exchange(a, b, s, f)
	}
	pub fn compare_and_swap(&self, a: *mut T, b: *mut T, o: Ordering) -> *mut T {
		match self.compare_exchange(a, b, o, Ordering::SeqCst) {
			Ok(x) => x,
			Err(x) => x,
		}
	}
	pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
	pub fn into_inner(self) -> *mut T { self.0.into_inner() }
}
impl<T> fmt::Debug for AtomicPtr<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
}
impl<T> Default for AtomicPtr<T> {
	fn default() -> Self { AtomicPtr::new(::std::ptr::null_mut()) }
}
pub const ATOMIC_BOOL_INIT: AtomicBool = AtomicBool::new(false);
pub const ATOMIC_ISIZE_INIT: AtomicIsize = AtomicIsize::new(0);
pub const ATOMIC_USIZE_INIT: AtomicUsize = AtomicUsize::new(0);
