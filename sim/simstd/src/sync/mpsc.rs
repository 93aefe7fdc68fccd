//! mpsc channels over the simulated mutex and condition variable.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use super::{Condvar, Mutex};
use ::std::collections::VecDeque;
use ::std::sync::Arc;
use ::std::time::Duration;

struct Q<T> {
	q: VecDeque<T>,
	senders: usize,
	rx: bool,
	taken: u64,
	pushed: u64,
}
struct Ch<T> {
	m: Mutex<Q<T>>,
	cv: Condvar,
	cap: Option<usize>,
}
pub struct Sender<T>(Arc<Ch<T>>);
pub struct SyncSender<T>(Arc<Ch<T>>);
pub struct Receiver<T>(Arc<Ch<T>>);

fn make<T>(cap: Option<usize>) -> Arc<Ch<T>> {
	Arc::new(Ch {
		m: Mutex::new(Q { q: VecDeque::new(), senders: 1, rx: true, taken: 0, pushed: 0 }),
		cv: Condvar::new(),
		cap,
	})
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
	let c = make(None);
	(Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
	let c = make(Some(n));
	(SyncSender(c.clone()), Receiver(c))
}
impl<T> Sender<T> {
	pub fn send(&self, t: T) -> Result<(), SendError<T>> {
		let mut g = self.0.m.lock().unwrap();
		if !g.rx {
			return Err(SendError(t));
		}
		g.q.push_back(t);
		g.pushed += 1;
		drop(g);
		self.0.cv.notify_all();
		Ok(())
	}
}
impl<T> SyncSender<T> {
	pub fn send(&self, t: T) -> Result<(), SendError<T>> {
		let cap = self.0.cap.unwrap();
		let mut g = self.0.m.lock().unwrap();
		while g.rx && g.q.len() >= cap.max(1) {
			g = self.0.cv.wait(g).unwrap();
		}
		if !g.rx {
			return Err(SendError(t));
		}
		g.q.push_back(t);
		g.pushed += 1;
		let mine = g.pushed;
		self.0.cv.notify_all();
		if cap == 0 {
			while g.rx && g.taken < mine {
				g = self.0.cv.wait(g).unwrap();
			}
		}
		Ok(())
	}
	pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
		let cap = self.0.cap.unwrap();
		let mut g = self.0.m.lock().unwrap();
		if !g.rx {
			return Err(TrySendError::Disconnected(t));
		}
		if g.q.len() >= cap.max(1) {
			return Err(TrySendError::Full(t));
		}
		g.q.push_back(t);
		g.pushed += 1;
		drop(g);
		self.0.cv.notify_all();
		Ok(())
	}
}
impl<T> Receiver<T> {
	fn take(&self, dl: Option<u64>) -> Result<T, RecvTimeoutError> {
		let mut g = self.0.m.lock().unwrap();
		loop {
			if let Some(t) = g.q.pop_front() {
				g.taken += 1;
				drop(g);
				if self.0.cap.is_some() {
					self.0.cv.notify_all();
				}
				return Ok(t);
			}
			if g.senders == 0 {
				return Err(RecvTimeoutError::Disconnected);
			}
			match dl {
				None => g = self.0.cv.wait(g).unwrap(),
				Some(d) => {
					let now = simrt::now_ns();
					if now >= d {
						return Err(RecvTimeoutError::Timeout);
					}
					g = self.0.cv.wait_timeout(g, Duration::from_nanos(d - now)).unwrap().0;
				}
			}
		}
	}
	pub fn recv(&self) -> Result<T, RecvError> { self.take(None).map_err(|_| RecvError) }
	pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
		self.take(Some(simrt::now_ns().saturating_add(d.as_nanos() as u64)))
	}
	pub fn try_recv(&self) -> Result<T, TryRecvError> {
		let mut g = self.0.m.lock().unwrap();
		match g.q.pop_front() {
			Some(t) => {
				g.taken += 1;
				drop(g);
				if self.0.cap.is_some() {
					self.0.cv.notify_all();
				}
				Ok(t)
			}
			None if g.senders == 0 => Err(TryRecvError::Disconnected),
			None => Err(TryRecvError::Empty),
		}
	}
	pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
	pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
	type Item = T;
	fn next(&mut self) -> Option<T> { self.0.recv().ok() }
}
impl<'a, T> Iterator for TryIter<'a, T> {
	type Item = T;
	fn next(&mut self) -> Option<T> { self.0.try_recv().ok() }
}
impl<T> Iterator for IntoIter<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> { self.0.recv().ok() }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
	type Item = T;
	type IntoIter = Iter<'a, T>;
	fn into_iter(self) -> Iter<'a, T> { self.iter() }
}
impl<T> IntoIterator for Receiver<T> {
	type Item = T;
	type IntoIter = IntoIter<T>;
	fn into_iter(self) -> IntoIter<T> { IntoIter(self) }
}
macro_rules! snd {
	($n:ident) => {
		impl<T> Clone for $n<T> {
			fn clone(&self) -> Self {
				self.0.m.lock().unwrap().senders += 1;
				$n(self.0.clone())
			}
		}
		impl<T> Drop for $n<T> {
			fn drop(&mut self) {
				if let Ok(mut g) = self.0.m.lock() {
					g.senders -= 1;
				}
				self.0.cv.notify_all();
			}
		}
		impl<T> ::std::fmt::Debug for $n<T> {
			fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "Sender") }
		}
	};
}
snd!(Sender);
snd!(SyncSender);
impl<T> Drop for Receiver<T> {
	fn drop(&mut self) {
		if let Ok(mut g) = self.0.m.lock() {
			g.rx = false;
		}
		self.0.cv.notify_all();
	}
}
impl<T> ::std::fmt::Debug for Receiver<T> {
	fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "Receiver") }
}
