//! tokio as the code under test uses it: the macros and the synchronisation primitives are the real ones; the runtime, its
//! threads, timers and file operations are simulated.
pub use real::{join, pin, select, task_local, try_join};
pub use real::{io, sync};
pub use sim_tokio_macros::{main, test};

#[doc(hidden)]
pub mod __sim {
	use std::future::Future;
	use std::sync::Mutex;

	#[derive(Default)]
	pub struct Blocking(pub Mutex<Vec<simstd::thread::Thread>>, pub Mutex<Vec<usize>>);

	/// `#[tokio::main]`: drives the future on the calling thread; dropping the runtime waits for the blocking tasks that have
	/// been started.
	pub fn run_main<F: Future>(f: F) -> F::Output {
		let out = simrt::block_on(f);
		loop {
			let t = {
				let b = simrt::ext::<Blocking>();
				let x = b.1.lock().unwrap().pop();
				x
			};
			match t {
				Some(t) => simrt::join_wait(t),
				None => break,
			}
		}
		out
	}
}

pub mod runtime {
	use std::future::Future;
	pub struct Runtime;
	impl Runtime {
		pub fn new() -> std::io::Result<Runtime> { Ok(Runtime) }
		pub fn block_on<F: Future>(&self, f: F) -> F::Output { crate::__sim::run_main(f) }
	}
	pub struct Builder;
	impl Builder {
		pub fn new_current_thread() -> Self { Builder }
		pub fn new_multi_thread() -> Self { Builder }
		pub fn enable_all(&mut self) -> &mut Self { self }
		pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
		pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime) }
	}
}

pub mod task {
	use std::any::Any;
	use std::fmt;
	use std::future::Future;
	use std::pin::Pin;
	use std::sync::{Arc, Mutex};
	use std::task::{Context, Poll, Waker};

	pub struct JoinError(Option<String>);
	impl JoinError {
		pub fn is_panic(&self) -> bool { self.0.is_some() }
		pub fn is_cancelled(&self) -> bool { self.0.is_none() }
	}
	impl fmt::Debug for JoinError {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			match &self.0 {
				Some(p) => write!(f, "JoinError::Panic({p:?})"),
				None => write!(f, "JoinError::Cancelled"),
			}
		}
	}
	impl fmt::Display for JoinError {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
	}
	impl std::error::Error for JoinError {}

	struct Slot<T> {
		v: Option<Result<T, JoinError>>,
		w: Option<Waker>,
	}
	pub struct JoinHandle<T>(Arc<Mutex<Slot<T>>>);
	impl<T> JoinHandle<T> {
		pub fn abort(&self) {}
		pub fn is_finished(&self) -> bool { self.0.lock().unwrap().v.is_some() }
	}
	impl<T> Future for JoinHandle<T> {
		type Output = Result<T, JoinError>;
		fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
			let mut s = self.0.lock().unwrap();
			match s.v.take() {
				Some(v) => Poll::Ready(v),
				None => {
					s.w = Some(cx.waker().clone());
					Poll::Pending
				}
			}
		}
	}

	fn text(p: &(dyn Any + Send)) -> String {
		p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()
	}

	fn start<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> (JoinHandle<T>, usize) {
		let slot = Arc::new(Mutex::new(Slot { v: None, w: None }));
		let s2 = slot.clone();
		let t = simrt::spawn_raw(
			Some(name.to_string()),
			2 << 20,
			Box::new(move || {
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
				let r = match r {
					Ok(v) => Ok(v),
					Err(p) => {
						simrt::note_panic(&*p);
						if p.is::<simrt::SimAbort>() {
							return;
						}
						Err(JoinError(Some(text(&*p))))
					}
				};
				let w = {
					let mut s = s2.lock().unwrap();
					s.v = Some(r);
					s.w.take()
				};
				if let Some(w) = w {
					w.wake()
				}
			}),
		);
		(JoinHandle(slot), t.tid)
	}

	pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
	where
		F: FnOnce() -> T + Send + 'static,
		T: Send + 'static,
	{
		let (h, tid) = start("blocking", f);
		simrt::ext::<crate::__sim::Blocking>().1.lock().unwrap().push(tid);
		simrt::yield_point("spawn_blocking");
		h
	}
	pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
	where
		F: Future + Send + 'static,
		F::Output: Send + 'static,
	{
		let h = start("task", move || simrt::block_on(f)).0;
		simrt::yield_point("spawn");
		h
	}
	pub async fn yield_now() {
		let mut first = true;
		std::future::poll_fn(move |cx| {
			if std::mem::take(&mut first) {
				cx.waker().wake_by_ref();
				Poll::Pending
			} else {
				Poll::Ready(())
			}
		})
		.await
	}
	pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() }
}
pub use task::spawn;

pub mod time {
	pub use std::time::Duration;
	use std::future::Future;
	use std::task::Poll;
	pub use simstd::time::Instant;
	pub async fn sleep(d: Duration) { simrt::sleep_for(d.as_nanos() as u64).await; }
	pub async fn sleep_until(t: Instant) { sleep(t.saturating_duration_since(Instant::now())).await; }
	pub struct Interval(Instant, Duration);
	impl Interval {
		pub async fn tick(&mut self) -> Instant {
			let t = self.0;
			sleep_until(t).await;
			self.0 = t + self.1;
			t
		}
	}
	/// The first tick completes at once.
	pub fn interval(d: Duration) -> Interval { Interval(Instant::now(), d) }
	#[derive(Debug, PartialEq, Eq)]
	pub struct Elapsed(());
	pub mod error {
		pub use super::Elapsed;
	}
	pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
		let mut f = Box::pin(f);
		let mut s = Box::pin(simrt::sleep_for(d.as_nanos() as u64));
		std::future::poll_fn(move |cx| {
			if let Poll::Ready(v) = f.as_mut().poll(cx) {
				return Poll::Ready(Ok(v));
			}
			match s.as_mut().poll(cx) {
				Poll::Ready(_) => Poll::Ready(Err(Elapsed(()))),
				Poll::Pending => Poll::Pending,
			}
		})
		.await
	}
}

pub mod fs {
	use std::io;
	use std::path::{Path, PathBuf};
	async fn blocking<T: Send + 'static>(f: impl FnOnce() -> io::Result<T> + Send + 'static) -> io::Result<T> {
		match crate::task::spawn_blocking(f).await {
			Ok(r) => r,
			Err(_) => Err(io::Error::new(io::ErrorKind::Other, "background task failed")),
		}
	}
	macro_rules! wrap { ($($n:ident($($a:ident),*) -> $t:ty;)*) => { $(
		pub async fn $n($($a: impl AsRef<Path>),*) -> io::Result<$t> {
			$(let $a = $a.as_ref().to_path_buf();)*
			blocking(move || simstd::fs::$n($($a),*)).await
		}
	)* } }
	wrap! {
		read(p) -> Vec<u8>;
		read_to_string(p) -> String;
		metadata(p) -> simstd::fs::Metadata;
		canonicalize(p) -> PathBuf;
		create_dir(p) -> ();
		create_dir_all(p) -> ();
		remove_file(p) -> ();
		rename(p, q) -> ();
	}
	pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
		let p = p.as_ref().to_path_buf();
		blocking(move || simstd::fs::try_exists(p)).await
	}

	/// A file, read and written by background tasks as the real one, at most 2 MiB at a time.
	pub struct File {
		f: std::sync::Arc<simstd::fs::File>,
		op: Option<(std::pin::Pin<Box<dyn std::future::Future<Output = io::Result<Vec<u8>>> + Send + Sync>>, usize)>,
	}
	const MAX: usize = 2 * 1024 * 1024;
	impl File {
		pub async fn open(p: impl AsRef<Path>) -> io::Result<File> {
			let p = p.as_ref().to_path_buf();
			Ok(File { f: std::sync::Arc::new(blocking(move || simstd::fs::File::open(p)).await?), op: None })
		}
		pub async fn create(p: impl AsRef<Path>) -> io::Result<File> {
			let p = p.as_ref().to_path_buf();
			Ok(File { f: std::sync::Arc::new(blocking(move || simstd::fs::File::create(p)).await?), op: None })
		}
		pub async fn metadata(&self) -> io::Result<simstd::fs::Metadata> {
			let f = self.f.clone();
			blocking(move || f.metadata()).await
		}
		pub async fn sync_all(&self) -> io::Result<()> { Ok(()) }
		pub async fn sync_data(&self) -> io::Result<()> { Ok(()) }
	}
	use std::task::{Context, Poll};
	impl real::io::AsyncRead for File {
		fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>, b: &mut real::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
			if b.remaining() == 0 {
				return Poll::Ready(Ok(()));
			}
			if self.op.is_none() {
				let (f, n) = (self.f.clone(), b.remaining().min(MAX));
				self.op = Some((
					Box::pin(blocking(move || {
						let mut v = vec![0; n];
						let n = io::Read::read(&mut &*f, &mut v)?;
						v.truncate(n);
						Ok(v)
					})),
					n,
				));
			}
			match self.op.as_mut().unwrap().0.as_mut().poll(cx) {
				Poll::Pending => Poll::Pending,
				Poll::Ready(r) => {
					self.op = None;
					Poll::Ready(r.map(|v| b.put_slice(&v)))
				}
			}
		}
	}
	impl real::io::AsyncWrite for File {
		fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
			if self.op.is_none() {
				let (f, v) = (self.f.clone(), b[..b.len().min(MAX)].to_vec());
				let n = v.len();
				self.op = Some((
					Box::pin(blocking(move || {
						io::Write::write_all(&mut &*f, &v)?;
						Ok(vec![])
					})),
					n,
				));
			}
			let op = self.op.as_mut().unwrap();
			let n = op.1;
			match op.0.as_mut().poll(cx) {
				Poll::Pending => Poll::Pending,
				Poll::Ready(r) => {
					self.op = None;
					Poll::Ready(r.map(|_| n))
				}
			}
		}
		fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
		fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
	}

	pub struct ReadDir(simstd::fs::ReadDir);
	impl ReadDir {
		pub async fn next_entry(&mut self) -> io::Result<Option<simstd::fs::DirEntry>> { self.0.next().transpose() }
	}
	pub async fn read_dir(p: impl AsRef<Path>) -> io::Result<ReadDir> {
		let p = p.as_ref().to_path_buf();
		blocking(move || simstd::fs::read_dir(p)).await.map(ReadDir)
	}
	pub async fn write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> io::Result<()> {
		let (p, c) = (p.as_ref().to_path_buf(), c.as_ref().to_vec());
		blocking(move || simstd::fs::write(p, c)).await
	}
}
