//! async-std as the code under test uses it, on the simulated scheduler and clock.
pub mod future {
	pub use std::future::{pending, ready, Future};
	use std::time::Duration;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct TimeoutError(());
	pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, TimeoutError> {
		sim_tokio::time::timeout(d, f).await.map_err(|_| TimeoutError(()))
	}
}
pub mod task {
	pub use sim_tokio::task::yield_now;
	use std::future::Future;
	use std::pin::Pin;
	use std::task::{Context, Poll};
	use std::time::Duration;

	pub fn block_on<F: Future>(f: F) -> F::Output { simrt::block_on(f) }
	pub async fn sleep(d: Duration) { simrt::sleep_for(d.as_nanos() as u64).await; }
	pub struct JoinHandle<T>(sim_tokio::task::JoinHandle<T>);
	impl<T> Future for JoinHandle<T> {
		type Output = T;
		fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
			Pin::new(&mut self.0).poll(cx).map(|r| r.expect("the task has panicked"))
		}
	}
	pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
	where
		F: Future + Send + 'static,
		F::Output: Send + 'static,
	{
		JoinHandle(sim_tokio::task::spawn(f))
	}
	pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
	where
		F: FnOnce() -> T + Send + 'static,
		T: Send + 'static,
	{
		JoinHandle(sim_tokio::task::spawn_blocking(f))
	}
}
