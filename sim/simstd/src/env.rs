pub use ::std::env::*;
use ::std::ffi::OsString;

/// Command line of the simulated process.
#[derive(Default)]
pub struct SimArgs(pub ::std::sync::Mutex<Vec<OsString>>);

pub fn sim_args() -> Vec<OsString> {
	if simrt::in_sim() {
		simrt::ext::<SimArgs>().0.lock().unwrap().clone()
	} else {
		::std::env::args_os().collect()
	}
}

/// Where the simulated program is, if the system says so.
#[derive(Default)]
pub struct SimExe(pub ::std::sync::Mutex<Option<::std::io::Result<::std::path::PathBuf>>>);

pub fn current_exe() -> ::std::io::Result<::std::path::PathBuf> {
	if simrt::in_sim() {
		match &*simrt::ext::<SimExe>().0.lock().unwrap() {
			Some(Ok(p)) => Ok(p.clone()),
			Some(Err(e)) => Err(e.kind().into()),
			None => Ok("/usr/bin/program".into()),
		}
	} else {
		::std::env::current_exe()
	}
}
