//! Log file output on the simulated disk. The real crate hands lines to a worker thread that lives as
//! long as the guard; this one writes them directly, as long as the guard is there.
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

pub mod rolling {
	use super::*;
	use std::path::{Path, PathBuf};
	#[derive(Clone, Debug, Eq, PartialEq)]
	pub struct Rotation(());
	impl Rotation {
		pub const NEVER: Rotation = Rotation(());
		pub const DAILY: Rotation = Rotation(());
		pub const HOURLY: Rotation = Rotation(());
		pub const MINUTELY: Rotation = Rotation(());
	}
	pub struct RollingFileAppender(PathBuf);
	impl RollingFileAppender {
		/// As in 0.2.2: opens or creates the file, and its folder, or panics.
		pub fn new(_: Rotation, dir: impl AsRef<Path>, name: impl AsRef<Path>) -> Self {
			let (dir, name) = (dir.as_ref().to_str().unwrap(), name.as_ref().to_str().unwrap());
			let path = Path::new(dir).join(name);
			let open = || simstd::fs::OpenOptions::new().append(true).create(true).open(&path);
			open().or_else(|_| simstd::fs::create_dir_all(dir).and_then(|_| open())).expect("failed to create appender");
			RollingFileAppender(path)
		}
	}
	impl Write for RollingFileAppender {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			simstd::fs::OpenOptions::new().append(true).create(true).open(&self.0)?.write(b)
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
}

pub mod non_blocking {
	use super::*;
	#[derive(Clone)]
	pub struct NonBlocking(pub(crate) Arc<Mutex<Option<Box<dyn Write + Send>>>>);
	pub struct WorkerGuard(pub(crate) Arc<Mutex<Option<Box<dyn Write + Send>>>>);
	impl Drop for WorkerGuard {
		fn drop(&mut self) {
			if let Ok(mut w) = self.0.lock() {
				*w = None;
			}
		}
	}
	impl Write for NonBlocking {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			if let Some(w) = self.0.lock().unwrap().as_mut() {
				let _ = w.write_all(b);
			}
			Ok(b.len())
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl<'a> tracing_subscriber::fmt::MakeWriter<'a> for NonBlocking {
		type Writer = NonBlocking;
		fn make_writer(&'a self) -> NonBlocking { self.clone() }
	}
}

pub fn non_blocking<T: Write + Send + 'static>(w: T) -> (non_blocking::NonBlocking, non_blocking::WorkerGuard) {
	let w: Arc<Mutex<Option<Box<dyn Write + Send>>>> = Arc::new(Mutex::new(Some(Box::new(w))));
	(non_blocking::NonBlocking(w.clone()), non_blocking::WorkerGuard(w))
}
