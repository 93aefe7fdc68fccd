//! Ctrl-C handling: the harness raises the signal; a dedicated thread runs the handler, as in the real crate.
use simstd::sync::{Condvar, Mutex};
use std::fmt;

#[derive(Debug)]
pub enum Error {
	NoSuchSignal(()),
	MultipleHandlers,
	System(std::io::Error),
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Ctrl-C error: {self:?}") }
}
impl std::error::Error for Error {}

#[derive(Default)]
struct Signals {
	m: Mutex<(bool, usize)>,
	c: Condvar,
}

pub fn set_handler<F>(mut h: F) -> Result<(), Error>
where
	F: FnMut() + 'static + Send,
{
	let s = simrt::ext::<Signals>();
	{
		let mut m = s.m.lock().unwrap();
		if m.0 {
			return Err(Error::MultipleHandlers);
		}
		m.0 = true;
	}
	simstd::thread::Builder::new()
		.name("ctrl-c".into())
		.spawn(move || loop {
			{
				let mut m = s.m.lock().unwrap();
				while m.1 == 0 {
					m = s.c.wait(m).unwrap();
				}
				m.1 -= 1;
			}
			h();
		})
		.map(|_| ())
		.map_err(Error::System)
}

/// Raises the signal; false if no handler has been installed (the default action would end the process).
pub fn sim_raise() -> bool {
	let s = simrt::ext::<Signals>();
	let mut m = s.m.lock().unwrap();
	if !m.0 {
		return false;
	}
	m.1 += 1;
	s.c.notify_one();
	true
}
