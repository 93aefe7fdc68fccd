//! The event loop of a JavaScript host: tasks run in the order in which they are woken, until none can go on.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub const MS: u64 = 1_000_000;

type Queue = Arc<Mutex<VecDeque<usize>>>;

struct Woken {
	k: usize,
	queued: AtomicBool,
	queue: Queue,
}
impl Wake for Woken {
	fn wake(self: Arc<Self>) {
		if !self.queued.swap(true, Ordering::SeqCst) {
			self.queue.lock().unwrap().push_back(self.k);
		}
	}
}

#[derive(Clone)]
pub struct Page {
	queue: Queue,
	tasks: Rc<RefCell<Vec<Option<(Pin<Box<dyn Future<Output = ()>>>, Arc<Woken>)>>>>,
}

impl Page {
	pub fn new() -> Self { Page { queue: Default::default(), tasks: Default::default() } }

	pub fn spawn(&self, f: impl Future<Output = ()> + 'static) {
		let k = self.tasks.borrow().len();
		let w = Arc::new(Woken { k, queued: AtomicBool::new(false), queue: self.queue.clone() });
		self.tasks.borrow_mut().push(Some((Box::pin(f), w.clone())));
		w.wake();
	}

	/// Runs what can run. Nothing else happens meanwhile.
	pub fn drain(&self) {
		loop {
			simrt::yield_point("event loop");
			let Some(k) = self.queue.lock().unwrap().pop_front() else { return };
			let Some((mut f, w)) = self.tasks.borrow_mut()[k].take() else { continue };
			w.queued.store(false, Ordering::SeqCst);
			let waker: Waker = w.clone().into();
			if let Poll::Pending = f.as_mut().poll(&mut Context::from_waker(&waker)) {
				self.tasks.borrow_mut()[k] = Some((f, w));
			}
		}
	}
}
