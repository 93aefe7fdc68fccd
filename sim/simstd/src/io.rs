//! Process streams of the simulated process. Everything else is the real `std::io`.
pub use ::std::io::*;
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::sync::{Arc, Mutex as RMutex};
use crate::sync::{Condvar, Mutex};

/// What the simulated world does to reads and writes on the process streams.
#[derive(Clone, Copy, Debug, Default)]
pub struct StreamFaults {
	/// fragments: one in `frag` operations transfers less than asked for (0 = never)
	pub frag: usize,
	/// one in `eintr` operations is interrupted (0 = never)
	pub eintr: usize,
}

#[derive(Default)]
struct InState {
	data: VecDeque<u8>,
	eof: bool,
	/// fails with this error after the queued data was read
	error: Option<ErrorKind>,
	faults: StreamFaults,
	consumed: u64,
}

struct OutState {
	data: Vec<u8>,
	faults: StreamFaults,
	/// the reading end has gone after this many bytes
	limit: Option<(usize, ErrorKind)>,
	/// the reading end has stalled: writes block once this many bytes are outstanding
	window: Option<usize>,
	taken: usize,
}

/// The three streams of one simulated process, as seen from outside.
pub struct SimStdio {
	inp: RMutex<InState>,
	out: RMutex<OutState>,
	err: RMutex<Vec<u8>>,
	stdin: Arc<StdinShared>,
	stdout: Arc<StdoutShared>,
}
impl Default for SimStdio {
	fn default() -> Self {
		SimStdio {
			inp: RMutex::new(InState::default()),
			out: RMutex::new(OutState {
				data: vec![],
				faults: StreamFaults::default(),
				limit: None,
				window: None,
				taken: 0,
			}),
			err: RMutex::new(vec![]),
			stdin: Arc::new(StdinShared { busy: Mutex::new(false), cv: Condvar::new(), buf: RMutex::new(BufReader::new(RawIn)) }),
			stdout: Arc::new(StdoutShared {
				own: Mutex::new(None),
				cv: Condvar::new(),
				w: RMutex::new(LineWriter::new(RawOut)),
			}),
		}
	}
}

fn io() -> Arc<SimStdio> { simrt::ext::<SimStdio>() }
const IN_KEY: usize = usize::MAX / 8 + 1;
const OUT_KEY: usize = usize::MAX / 8 + 2;
const OUT_READY: usize = usize::MAX / 8 + 3;

impl SimStdio {
	pub fn set_faults(&self, i: StreamFaults, o: StreamFaults) {
		self.inp.lock().unwrap().faults = i;
		self.out.lock().unwrap().faults = o;
	}
	pub fn feed(&self, b: &[u8]) {
		self.inp.lock().unwrap().data.extend(b);
		simrt::wake(IN_KEY, usize::MAX);
		simrt::yield_point("world.feed");
	}
	pub fn close_stdin(&self) {
		self.inp.lock().unwrap().eof = true;
		simrt::wake(IN_KEY, usize::MAX);
		simrt::yield_point("world.close-stdin");
	}
	pub fn fail_stdin(&self, k: ErrorKind) {
		self.inp.lock().unwrap().error = Some(k);
		simrt::wake(IN_KEY, usize::MAX);
		simrt::yield_point("world.fail-stdin");
	}
	pub fn stdin_consumed(&self) -> u64 { self.inp.lock().unwrap().consumed }
	pub fn stdin_pending(&self) -> usize { self.inp.lock().unwrap().data.len() }
	/// The reading end of stdout goes away after `more` further bytes.
	pub fn break_stdout(&self, more: usize, k: ErrorKind) {
		{
			let mut o = self.out.lock().unwrap();
			let l = o.data.len() + more;
			o.limit = Some((l, k));
		}
		simrt::wake(OUT_KEY, usize::MAX);
	}
	pub fn set_window(&self, w: Option<usize>) {
		self.out.lock().unwrap().window = w;
		simrt::wake(OUT_KEY, usize::MAX);
	}
	/// Everything written to stdout so far.
	pub fn stdout_bytes(&self) -> Vec<u8> { self.out.lock().unwrap().data.clone() }
	pub fn stderr_bytes(&self) -> Vec<u8> { self.err.lock().unwrap().clone() }
	/// Blocks until stdout has more than `seen` bytes or `deadline`; returns the new bytes (and opens the window).
	pub fn take_stdout(&self, seen: usize, deadline: Option<u64>) -> Vec<u8> {
		loop {
			{
				let mut o = self.out.lock().unwrap();
				if o.data.len() > seen {
					o.taken = o.data.len();
					let v = o.data[seen..].to_vec();
					drop(o);
					simrt::wake(OUT_KEY, usize::MAX);
					return v;
				}
			}
			if !simrt::block_on_key(OUT_READY, deadline, "world.wait-stdout") || simrt::aborting() {
				return vec![];
			}
		}
	}
}

pub(crate) fn on_process_exit() {
	// std flushes stdout when a process exits, if nobody holds the lock.
	let s = io();
	let busy = s.stdout.own.lock().map(|g| g.is_some()).unwrap_or(true);
	if !busy {
		let r = s.stdout.w.try_lock().map(|mut w| w.flush());
		drop(r);
	}
}
/// What std does when main returns.
pub fn flush_at_exit() { on_process_exit() }

struct RawIn;
impl Read for RawIn {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> {
		simrt::yield_point("stdin.read");
		let s = io();
		loop {
			{
				let mut i = s.inp.lock().unwrap();
				let f = i.faults;
				if b.is_empty() {
					return Ok(0);
				}
				if !i.data.is_empty() || i.eof || i.error.is_some() {
					if f.eintr > 0 && simrt::fault("stdin-eintr", 1, f.eintr) {
						return Err(ErrorKind::Interrupted.into());
					}
				}
				if !i.data.is_empty() {
					let mut n = b.len().min(i.data.len());
					if f.frag > 0 && n > 1 && simrt::fault("stdin-fragment", 1, f.frag) {
						n = match simrt::fault_pick(3) {
							0 => n / 2,
							1 => 1,
							_ => 1 + simrt::fault_pick(n - 1),
						};
					}
					for x in b[..n].iter_mut() {
						*x = i.data.pop_front().unwrap();
					}
					i.consumed += n as u64;
					return Ok(n);
				}
				if let Some(k) = i.error {
					return Err(k.into());
				}
				if i.eof {
					return Ok(0);
				}
			}
			simrt::block_on_key(IN_KEY, None, "stdin.wait");
			if simrt::aborting() {
				return Ok(0);
			}
		}
	}
}
struct RawOut;
impl Write for RawOut {
	fn write(&mut self, b: &[u8]) -> Result<usize> {
		if !simrt::in_sim() {
			// the buffer of a process that is gone
			return Ok(b.len());
		}
		simrt::yield_point("stdout.write");
		if b.is_empty() {
			return Ok(0);
		}
		let s = io();
		loop {
			{
				let mut o = s.out.lock().unwrap();
				let f = o.faults;
				if f.eintr > 0 && simrt::fault("stdout-eintr", 1, f.eintr) {
					return Err(ErrorKind::Interrupted.into());
				}
				let mut n = b.len();
				if let Some((l, k)) = o.limit {
					if o.data.len() >= l {
						return Err(k.into());
					}
					n = n.min(l - o.data.len());
				}
				let full = o.window.map_or(false, |w| o.data.len() - o.taken >= w);
				if !full {
					if let Some(w) = o.window {
						n = n.min(w - (o.data.len() - o.taken));
					}
					if f.frag > 0 && n > 1 && simrt::fault("stdout-short-write", 1, f.frag) {
						n = 1 + simrt::fault_pick(n - 1);
					}
					o.data.extend_from_slice(&b[..n]);
					drop(o);
					simrt::wake(OUT_READY, usize::MAX);
					return Ok(n);
				}
			}
			simrt::block_on_key(OUT_KEY, None, "stdout.wait");
			if simrt::aborting() {
				return Ok(b.len());
			}
		}
	}
	fn flush(&mut self) -> Result<()> { Ok(()) }
}

// ------------------------------------------------------------ stdin
struct StdinShared {
	busy: Mutex<bool>,
	cv: Condvar,
	buf: RMutex<BufReader<RawIn>>,
}
pub struct Stdin {
	s: Arc<StdinShared>,
}
pub struct StdinLock<'a> {
	s: Arc<StdinShared>,
	g: Option<::std::sync::MutexGuard<'a, BufReader<RawIn>>>,
}
pub fn stdin() -> Stdin { Stdin { s: io().stdin.clone() } }
impl Stdin {
	pub fn lock(&self) -> StdinLock<'static> {
		let s = self.s.clone();
		{
			let mut b = s.busy.lock().unwrap();
			while *b {
				b = s.cv.wait(b).unwrap();
			}
			*b = true;
		}
		let g = s.buf.lock().unwrap_or_else(|e| e.into_inner());
		// The guard refers to `s`, which the lock keeps alive and drops last.
		let g: ::std::sync::MutexGuard<'static, BufReader<RawIn>> = unsafe { ::std::mem::transmute(g) };
		StdinLock { s: s.clone(), g: Some(g) }
	}
	pub fn read_line(&self, b: &mut String) -> Result<usize> { self.lock().read_line(b) }
	pub fn lines(self) -> Lines<StdinLock<'static>> { self.lock().lines() }
}
impl<'a> Drop for StdinLock<'a> {
	fn drop(&mut self) {
		self.g = None;
		if let Ok(mut b) = self.s.busy.lock() {
			*b = false;
		}
		self.s.cv.notify_one();
	}
}
impl Read for Stdin {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.lock().read(b) }
}
impl Read for &Stdin {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.lock().read(b) }
}
impl<'a> Read for StdinLock<'a> {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.g.as_mut().unwrap().read(b) }
	fn read_exact(&mut self, b: &mut [u8]) -> Result<()> { self.g.as_mut().unwrap().read_exact(b) }
}
impl<'a> BufRead for StdinLock<'a> {
	fn fill_buf(&mut self) -> Result<&[u8]> { self.g.as_mut().unwrap().fill_buf() }
	fn consume(&mut self, n: usize) { self.g.as_mut().unwrap().consume(n) }
}
impl fmt::Debug for Stdin {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Stdin") }
}

// ------------------------------------------------------------ stdout (reentrant, line buffered)
struct StdoutShared {
	own: Mutex<Option<(usize, usize)>>,
	cv: Condvar,
	w: RMutex<LineWriter<RawOut>>,
}
#[derive(Clone)]
pub struct Stdout {
	s: Arc<StdoutShared>,
}
pub struct StdoutLock<'a> {
	s: Arc<StdoutShared>,
	_p: ::std::marker::PhantomData<&'a ()>,
}
pub fn stdout() -> Stdout { Stdout { s: io().stdout.clone() } }
impl Stdout {
	pub fn lock(&self) -> StdoutLock<'static> {
		let me = simrt::current_tid();
		let mut g = self.s.own.lock().unwrap();
		loop {
			match *g {
				None => {
					*g = Some((me, 1));
					break;
				}
				Some((o, n)) if o == me => {
					*g = Some((o, n + 1));
					break;
				}
				_ => g = self.s.cv.wait(g).unwrap(),
			}
		}
		drop(g);
		StdoutLock { s: self.s.clone(), _p: ::std::marker::PhantomData }
	}
}
impl<'a> Drop for StdoutLock<'a> {
	fn drop(&mut self) {
		if let Ok(mut g) = self.s.own.lock() {
			*g = match *g {
				Some((o, n)) if n > 1 => Some((o, n - 1)),
				_ => None,
			};
		}
		self.s.cv.notify_one();
	}
}
impl<'a> Write for StdoutLock<'a> {
	fn write(&mut self, b: &[u8]) -> Result<usize> { self.s.w.lock().unwrap_or_else(|e| e.into_inner()).write(b) }
	fn write_all(&mut self, b: &[u8]) -> Result<()> { self.s.w.lock().unwrap_or_else(|e| e.into_inner()).write_all(b) }
	fn flush(&mut self) -> Result<()> { self.s.w.lock().unwrap_or_else(|e| e.into_inner()).flush() }
}
impl Write for Stdout {
	fn write(&mut self, b: &[u8]) -> Result<usize> { self.lock().write(b) }
	fn write_all(&mut self, b: &[u8]) -> Result<()> { self.lock().write_all(b) }
	fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> Result<()> { self.lock().write_fmt(a) }
	fn flush(&mut self) -> Result<()> { self.lock().flush() }
}
impl Write for &Stdout {
	fn write(&mut self, b: &[u8]) -> Result<usize> { self.lock().write(b) }
	fn write_all(&mut self, b: &[u8]) -> Result<()> { self.lock().write_all(b) }
	fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> Result<()> { self.lock().write_fmt(a) }
	fn flush(&mut self) -> Result<()> { self.lock().flush() }
}
impl fmt::Debug for Stdout {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Stdout") }
}

// ------------------------------------------------------------ stderr
#[derive(Clone, Debug)]
pub struct Stderr;
pub struct StderrLock<'a>(::std::marker::PhantomData<&'a ()>);
pub fn stderr() -> Stderr { Stderr }
impl Stderr {
	pub fn lock(&self) -> StderrLock<'static> { StderrLock(::std::marker::PhantomData) }
}
fn err_write(b: &[u8]) -> Result<usize> {
	simrt::yield_point("stderr.write");
	if simrt::in_sim() {
		io().err.lock().unwrap().extend_from_slice(b);
	}
	Ok(b.len())
}
impl Write for Stderr {
	fn write(&mut self, b: &[u8]) -> Result<usize> { err_write(b) }
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl<'a> Write for StderrLock<'a> {
	fn write(&mut self, b: &[u8]) -> Result<usize> { err_write(b) }
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
