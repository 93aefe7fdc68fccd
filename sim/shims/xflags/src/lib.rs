//! The part of xflags that the code under test uses.
use std::fmt;
pub use xflags_macros::xflags;

#[derive(Debug)]
pub struct Error {
	msg: String,
	help: bool,
}
impl Error {
	pub fn new(m: impl Into<String>) -> Error { Error { msg: m.into(), help: false } }
	pub fn is_help(&self) -> bool { self.help }
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[doc(hidden)]
pub mod rt {
	use super::*;
	use std::collections::HashMap;
	use std::ffi::OsString;

	pub struct Flag {
		pub cmd: usize,
		pub long: &'static str,
		pub short: Option<char>,
		pub value: bool,
		pub required: bool,
		pub repeated: bool,
	}
	pub struct Spec {
		pub flags: Vec<Flag>,
		/// name, is default
		pub subs: Vec<(&'static str, bool)>,
	}
	#[derive(Default)]
	pub struct Parsed {
		pub sub: Option<usize>,
		pub values: HashMap<(usize, &'static str), Vec<OsString>>,
	}
	pub fn env_args() -> Vec<OsString> { simstd::env::sim_args().into_iter().skip(1).collect() }

	pub fn parse(spec: &Spec, args: Vec<OsString>) -> Result<Parsed> {
		let mut p = Parsed::default();
		let mut it = args.into_iter();
		while let Some(a) = it.next() {
			let s = a.to_string_lossy().into_owned();
			if s.len() > 1 && s.starts_with('-') {
				let (name, mut inline) = match s.split_once('=') {
					Some((n, v)) if s.starts_with("--") => (n.to_string(), Some(OsString::from(v))),
					_ => (s.clone(), None),
				};
				let f = spec.flags.iter().find(|f| {
					(name.strip_prefix("--") == Some(f.long) || (f.short.is_some() && name == format!("-{}", f.short.unwrap())))
						&& (f.cmd == 0 || p.sub.map_or_else(|| spec.subs.get(f.cmd - 1).map_or(false, |x| x.1), |s| s + 1 == f.cmd))
				});
				match f {
					None if name == "--help" || name == "-h" => return Err(Error { msg: "usage".into(), help: true }),
					None => return Err(Error::new(format!("unexpected flag: `{s}`"))),
					Some(f) => {
						if f.cmd > 0 && p.sub.is_none() {
							p.sub = Some(f.cmd - 1);
						}
						let v = if f.value {
							match inline.take().or_else(|| it.next()) {
								Some(v) => v,
								None => return Err(Error::new(format!("expected a value for `{s}`"))),
							}
						} else {
							OsString::new()
						};
						let e = p.values.entry((f.cmd, f.long)).or_default();
						if !e.is_empty() && !f.repeated {
							return Err(Error::new(format!("flag specified more than once: `--{}`", f.long)));
						}
						e.push(v);
					}
				}
			} else if let (Some(i), None) = (spec.subs.iter().position(|x| x.0 == s), p.sub) {
				p.sub = Some(i);
			} else {
				return Err(Error::new(format!("unexpected argument: {a:?}")));
			}
		}
		if p.sub.is_none() && !spec.subs.is_empty() {
			p.sub = spec.subs.iter().position(|x| x.1);
			if p.sub.is_none() {
				return Err(Error::new("subcommand is required"));
			}
		}
		for f in &spec.flags {
			if f.required && (f.cmd == 0 || p.sub == Some(f.cmd - 1)) && !p.values.contains_key(&(f.cmd, f.long)) {
				return Err(Error::new(format!("flag is required: `--{}`", f.long)));
			}
		}
		Ok(p)
	}
	pub trait FromOs: Sized {
		fn from_os(flag: &str, v: OsString) -> Result<Self>;
	}
	impl FromOs for std::path::PathBuf {
		fn from_os(_: &str, v: OsString) -> Result<Self> { Ok(v.into()) }
	}
	impl FromOs for OsString {
		fn from_os(_: &str, v: OsString) -> Result<Self> { Ok(v) }
	}
	macro_rules! from_str { ($($t:ty)*) => { $(impl FromOs for $t {
		fn from_os(flag: &str, v: OsString) -> Result<Self> {
			let s = v.to_str().ok_or_else(|| Error::new(format!("can't parse `{flag}`, invalid utf8: {v:?}")))?;
			s.parse().map_err(|e| Error::new(format!("can't parse `{flag}`, {e}")))
		}
	})* } }
	from_str! { String u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool f32 f64 }
	impl Parsed {
		pub fn switch(&self, cmd: usize, n: &'static str) -> bool { self.values.contains_key(&(cmd, n)) }
		pub fn all<T: FromOs>(&mut self, cmd: usize, n: &'static str) -> Result<Vec<T>> {
			self.values.remove(&(cmd, n)).unwrap_or_default().into_iter().map(|v| T::from_os(n, v)).collect()
		}
		pub fn opt<T: FromOs>(&mut self, cmd: usize, n: &'static str) -> Result<Option<T>> { Ok(self.all(cmd, n)?.pop()) }
		pub fn req<T: FromOs>(&mut self, cmd: usize, n: &'static str) -> Result<T> { Ok(self.opt(cmd, n)?.unwrap()) }
	}
}
