//! Linearizable stand-in for `concurrent-queue`: every operation is one atomic step with a scheduling point before it.
use std::collections::VecDeque;
use std::fmt;
use std::sync::Mutex;

struct Q<T> {
	q: VecDeque<T>,
	closed: bool,
}
pub struct ConcurrentQueue<T> {
	m: Mutex<Q<T>>,
	cap: Option<usize>,
}
impl<T> ConcurrentQueue<T> {
	pub fn bounded(cap: usize) -> Self {
		assert!(cap > 0, "capacity must be positive");
		ConcurrentQueue { m: Mutex::new(Q { q: VecDeque::new(), closed: false }), cap: Some(cap) }
	}
	pub fn unbounded() -> Self { ConcurrentQueue { m: Mutex::new(Q { q: VecDeque::new(), closed: false }), cap: None } }
	fn g(&self, site: &'static str) -> std::sync::MutexGuard<'_, Q<T>> {
		simrt::yield_point(site);
		self.m.lock().unwrap_or_else(|e| e.into_inner())
	}
	pub fn push(&self, v: T) -> Result<(), PushError<T>> {
		let mut g = self.g("queue.push");
		if g.closed {
			return Err(PushError::Closed(v));
		}
		if self.cap.map_or(false, |c| g.q.len() >= c) {
			return Err(PushError::Full(v));
		}
		g.q.push_back(v);
		Ok(())
	}
	pub fn pop(&self) -> Result<T, PopError> {
		let mut g = self.g("queue.pop");
		match g.q.pop_front() {
			Some(v) => Ok(v),
			None if g.closed => Err(PopError::Closed),
			None => Err(PopError::Empty),
		}
	}
	pub fn is_empty(&self) -> bool { self.g("queue.len").q.is_empty() }
	pub fn is_full(&self) -> bool {
		let g = self.g("queue.len");
		self.cap.map_or(false, |c| g.q.len() >= c)
	}
	pub fn len(&self) -> usize { self.g("queue.len").q.len() }
	pub fn capacity(&self) -> Option<usize> { self.cap }
	pub fn close(&self) -> bool {
		let mut g = self.g("queue.close");
		!std::mem::replace(&mut g.closed, true)
	}
	pub fn is_closed(&self) -> bool { self.g("queue.closed?").closed }
}
impl<T> fmt::Debug for ConcurrentQueue<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ConcurrentQueue") }
}

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub enum PopError {
	Empty,
	Closed,
}
impl PopError {
	pub fn is_empty(&self) -> bool { matches!(self, PopError::Empty) }
	pub fn is_closed(&self) -> bool { matches!(self, PopError::Closed) }
}
#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub enum PushError<T> {
	Full(T),
	Closed(T),
}
impl<T> PushError<T> {
	pub fn into_inner(self) -> T {
		match self {
			PushError::Full(t) | PushError::Closed(t) => t,
		}
	}
}
