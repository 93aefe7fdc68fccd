pub use ::std::thread::*;
use ::std::any::Any;
use ::std::collections::HashMap;
use ::std::io;
use ::std::sync::{Arc, Mutex as RMutex};
use ::std::time::Duration;

#[derive(Default)]
struct Parkers(RMutex<HashMap<usize, bool>>);

fn park_key(t: usize) -> usize { usize::MAX / 4 + t }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);

#[derive(Clone)]
pub struct Thread {
	tid: usize,
	name: Option<String>,
	real: Option<::std::thread::Thread>,
}
impl Thread {
	pub fn id(&self) -> ThreadId { ThreadId(self.tid as u64 + 1) }
	pub fn name(&self) -> Option<&str> { self.name.as_deref() }
	pub fn unpark(&self) {
		if let Some(r) = &self.real {
			r.unpark();
			return;
		}
		simrt::yield_point("unpark");
		if simrt::in_sim() {
			simrt::ext::<Parkers>().0.lock().unwrap().insert(self.tid, true);
			simrt::wake(park_key(self.tid), usize::MAX);
		}
	}
}
impl ::std::fmt::Debug for Thread {
	fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "Thread({})", self.tid) }
}

pub fn current() -> Thread {
	if simrt::in_sim() {
		let tid = simrt::current_tid();
		Thread { tid, name: simrt::thread_name(tid), real: None }
	} else {
		Thread { tid: 0, name: None, real: Some(::std::thread::current()) }
	}
}

fn park_until(deadline: Option<u64>) {
	let me = simrt::current_tid();
	let p = simrt::ext::<Parkers>();
	loop {
		if p.0.lock().unwrap().insert(me, false) == Some(true) {
			return;
		}
		if !simrt::block_on_key(park_key(me), deadline, "park") {
			p.0.lock().unwrap().insert(me, false);
			return;
		}
		if simrt::aborting() {
			return;
		}
	}
}

pub fn park() {
	if !simrt::in_sim() {
		return ::std::thread::park();
	}
	simrt::yield_point("park");
	park_until(None)
}
pub fn park_timeout(d: Duration) {
	if !simrt::in_sim() {
		return ::std::thread::park_timeout(d);
	}
	simrt::yield_point("park-timeout");
	park_until(Some(simrt::now_ns().saturating_add(d.as_nanos() as u64)))
}
pub fn park_timeout_ms(ms: u32) { park_timeout(Duration::from_millis(ms as u64)) }
pub fn sleep(d: Duration) {
	if simrt::in_sim() {
		simrt::sleep_ns(d.as_nanos() as u64)
	} else {
		::std::thread::sleep(d)
	}
}
pub fn sleep_ms(ms: u32) { sleep(Duration::from_millis(ms as u64)) }
pub fn yield_now() {
	if simrt::in_sim() {
		simrt::yield_point("yield_now")
	} else {
		::std::thread::yield_now()
	}
}

type Slot<T> = Arc<RMutex<Option<::std::thread::Result<T>>>>;

pub struct JoinHandle<T> {
	tid: usize,
	slot: Slot<T>,
	thread: Thread,
	real: Option<::std::thread::JoinHandle<T>>,
}
impl<T> JoinHandle<T> {
	pub fn join(self) -> ::std::thread::Result<T> {
		if let Some(r) = self.real {
			return r.join();
		}
		simrt::yield_point("join");
		simrt::join_wait(self.tid);
		let v = self.slot.lock().unwrap().take();
		v.unwrap_or_else(|| Err(Box::new("thread result missing") as Box<dyn Any + Send>))
	}
	pub fn thread(&self) -> &Thread { &self.thread }
	pub fn is_finished(&self) -> bool {
		match &self.real {
			Some(r) => r.is_finished(),
			None => simrt::is_done(self.tid),
		}
	}
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
	fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "JoinHandle") }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
	F: FnOnce() -> T + Send + 'static,
	T: Send + 'static,
{
	Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
	name: Option<String>,
	stack: Option<usize>,
}
impl Builder {
	pub fn new() -> Builder { Builder::default() }
	pub fn name(mut self, n: String) -> Builder {
		self.name = Some(n);
		self
	}
	pub fn stack_size(mut self, n: usize) -> Builder {
		self.stack = Some(n);
		self
	}
	pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
	where
		F: FnOnce() -> T + Send + 'static,
		T: Send + 'static,
	{
		if !simrt::in_sim() {
			let r = ::std::thread::spawn(f);
			return Ok(JoinHandle {
				tid: 0,
				slot: Arc::new(RMutex::new(None)),
				thread: Thread { tid: 0, name: self.name, real: Some(r.thread().clone()) },
				real: Some(r),
			});
		}
		let slot: Slot<T> = Arc::new(RMutex::new(None));
		let s2 = slot.clone();
		let sp = simrt::spawn_raw(
			self.name.clone(),
			self.stack.unwrap_or(2 << 20),
			Box::new(move || {
				let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
				match r {
					Ok(v) => *s2.lock().unwrap() = Some(Ok(v)),
					Err(p) => {
						simrt::note_panic(&*p);
						let abort = p.is::<simrt::SimAbort>();
						*s2.lock().unwrap() = Some(Err(p));
						let _ = abort;
					}
				}
			}),
		);
		Ok(JoinHandle {
			tid: sp.tid,
			slot,
			thread: Thread { tid: sp.tid, name: self.name, real: None },
			real: None,
		})
	}
}
