//! Drop-in replacement for `std` in simulated crates (their manifests rename this crate to `std`): everything that is
//! not listed below is the real standard library.
#![allow(deprecated, ambiguous_glob_reexports)]
pub use ::std::*;

pub mod sync;
pub mod thread;
pub mod time;
pub mod io;
pub mod fs;
pub mod process;
pub mod env;
pub mod simdisk;

#[doc(hidden)]
pub mod __sim {
	pub use simrt;
	pub fn print(a: ::std::fmt::Arguments<'_>) {
		use ::std::io::Write;
		if let Err(e) = crate::io::stdout().write_fmt(a) {
			panic!("failed printing to stdout: {e}");
		}
	}
	pub fn eprint(a: ::std::fmt::Arguments<'_>) {
		use ::std::io::Write;
		if let Err(e) = crate::io::stderr().write_fmt(a) {
			panic!("failed printing to stderr: {e}");
		}
	}
}

#[macro_export]
macro_rules! print { ($($a:tt)*) => { $crate::__sim::print($crate::format_args!($($a)*)) } }
#[macro_export]
macro_rules! println {
	() => { $crate::__sim::print($crate::format_args!("\n")) };
	($($a:tt)*) => { $crate::__sim::print($crate::format_args!("{}\n", $crate::format_args!($($a)*))) }
}
#[macro_export]
macro_rules! eprint { ($($a:tt)*) => { $crate::__sim::eprint($crate::format_args!($($a)*)) } }
#[macro_export]
macro_rules! eprintln {
	() => { $crate::__sim::eprint($crate::format_args!("\n")) };
	($($a:tt)*) => { $crate::__sim::eprint($crate::format_args!("{}\n", $crate::format_args!($($a)*))) }
}
#[macro_export]
macro_rules! dbg {
	() => { () };
	($v:expr $(,)?) => { match $v { t => { let _ = $crate::format!("{:?}", &t); t } } };
	($($v:expr),+ $(,)?) => { ($($crate::dbg!($v)),+,) };
}
