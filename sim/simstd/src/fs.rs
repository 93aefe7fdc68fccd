//! `std::fs` over the simulated disk. What is not listed here does not exist in a simulation.
use crate::simdisk::{disk, Kind};
use ::std::ffi::OsString;
use ::std::io::{self, Read, Seek, SeekFrom, Write};
use ::std::path::{Path, PathBuf};
use ::std::sync::Mutex;

#[derive(Debug)]
pub struct File {
	path: PathBuf,
	pos: Mutex<usize>,
	append: bool,
	writable: bool,
	readable: bool,
}
#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
	read: bool,
	write: bool,
	append: bool,
	truncate: bool,
	create: bool,
	create_new: bool,
}
macro_rules! opt { ($($n:ident)*) => { $(pub fn $n(&mut self, v: bool) -> &mut Self { self.$n = v; self })* } }
impl OpenOptions {
	pub fn new() -> Self { Self::default() }
	opt! { read write append truncate create create_new }
	pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
		let p = p.as_ref();
		let path = if self.create_new || ((self.write || self.append) && self.create) {
			disk().create(p, self.truncate, self.create_new)?
		} else {
			let (kind, _) = disk().stat(p, true)?;
			if kind == Kind::Dir && (self.write || self.append) {
				return Err(io::Error::new(io::ErrorKind::Other, "is a directory"));
			}
			if self.truncate {
				disk().create(p, true, false)?
			} else {
				disk().canonicalize(p)?
			}
		};
		Ok(File {
			path,
			pos: Mutex::new(0),
			append: self.append,
			writable: self.write || self.append,
			readable: self.read,
		})
	}
}
impl File {
	pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).open(p) }
	pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
		OpenOptions::new().write(true).create(true).truncate(true).open(p)
	}
	pub fn options() -> OpenOptions { OpenOptions::new() }
	pub fn sync_all(&self) -> io::Result<()> { Ok(()) }
	pub fn sync_data(&self) -> io::Result<()> { Ok(()) }
	pub fn metadata(&self) -> io::Result<Metadata> { metadata(&self.path) }
	pub fn set_len(&self, n: u64) -> io::Result<()> {
		let mut d = disk().read(&self.path)?;
		d.resize(n as usize, 0);
		disk().create(&self.path, true, false)?;
		disk().append(&self.path, Some(0), &d).map(|_| ())
	}
}
macro_rules! rw {
	($t:ty) => {
		impl Read for $t {
			fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
				if !self.readable {
					return Err(io::Error::from_raw_os_error(9));
				}
				let d = disk().read(&self.path)?;
				let mut p = self.pos.lock().unwrap();
				let at = (*p).min(d.len());
				let n = disk().read_part(b.len().min(d.len() - at));
				b[..n].copy_from_slice(&d[at..at + n]);
				*p = at + n;
				Ok(n)
			}
		}
		impl Write for $t {
			fn write(&mut self, b: &[u8]) -> io::Result<usize> {
				if !self.writable {
					return Err(io::Error::from_raw_os_error(9));
				}
				let at = if self.append { None } else { Some(*self.pos.lock().unwrap()) };
				let n = disk().append(&self.path, at, b)?;
				*self.pos.lock().unwrap() += n;
				Ok(n)
			}
			fn flush(&mut self) -> io::Result<()> { Ok(()) }
		}
		impl Seek for $t {
			fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
				let len = disk().stat(&self.path, true)?.1 as i64;
				let mut p = self.pos.lock().unwrap();
				let n = match s {
					SeekFrom::Start(n) => n as i64,
					SeekFrom::End(n) => len + n,
					SeekFrom::Current(n) => *p as i64 + n,
				};
				if n < 0 {
					return Err(io::ErrorKind::InvalidInput.into());
				}
				*p = n as usize;
				Ok(n as u64)
			}
		}
	};
}
rw!(File);
rw!(&File);

#[derive(Clone, Debug)]
pub struct Metadata(Kind, u64);
impl Metadata {
	pub fn is_dir(&self) -> bool { self.0 == Kind::Dir }
	pub fn is_file(&self) -> bool { self.0 == Kind::File }
	pub fn is_symlink(&self) -> bool { self.0 == Kind::Link }
	pub fn len(&self) -> u64 { self.1 }
	pub fn file_type(&self) -> FileType { FileType(self.0) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FileType(Kind);
impl FileType {
	pub fn is_dir(&self) -> bool { self.0 == Kind::Dir }
	pub fn is_file(&self) -> bool { self.0 == Kind::File }
	pub fn is_symlink(&self) -> bool { self.0 == Kind::Link }
}
pub struct DirEntry(PathBuf, Kind);
impl DirEntry {
	pub fn path(&self) -> PathBuf { self.0.clone() }
	pub fn file_name(&self) -> OsString { self.0.file_name().unwrap().to_os_string() }
	pub fn metadata(&self) -> io::Result<Metadata> { symlink_metadata(&self.0) }
	pub fn file_type(&self) -> io::Result<FileType> { Ok(FileType(self.1)) }
}
pub struct ReadDir(::std::vec::IntoIter<(PathBuf, Kind)>);
impl Iterator for ReadDir {
	type Item = io::Result<DirEntry>;
	fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(p, d)| Ok(DirEntry(p, d))) }
}

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { disk().read(p.as_ref()) }
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
	String::from_utf8(disk().read(p.as_ref())?)
		.map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
	disk().stat(p.as_ref(), true).map(|(d, n)| Metadata(d, n))
}
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
	disk().stat(p.as_ref(), false).map(|(d, n)| Metadata(d, n))
}
pub fn read_link<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { disk().read_link(p.as_ref()) }
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { disk().canonicalize(p.as_ref()) }
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> { disk().mkdir(p.as_ref(), false) }
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { disk().mkdir(p.as_ref(), true) }
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> { disk().remove(p.as_ref()) }
pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> { disk().remove(p.as_ref()) }
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { disk().remove_tree(p.as_ref()) }
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> { disk().rename(a.as_ref(), b.as_ref()) }
pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> { Ok(ReadDir(disk().list(p.as_ref())?.into_iter())) }
pub fn try_exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { Ok(disk().exists(p.as_ref())) }
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
	let d = read(a)?;
	write(b, &d)?;
	Ok(d.len() as u64)
}

/// `Path::is_file()` and the like are methods of the real type, which ask the real system with this call: within a
/// simulation they see the simulated disk, too.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut u8) -> i32 {
	extern "C" {
		fn syscall(n: i64, ...) -> i64;
		fn __errno_location() -> *mut i32;
	}
	const AT_FDCWD: i32 = -100;
	if simrt::in_sim() && dir == AT_FDCWD && !path.is_null() {
		use ::std::os::unix::ffi::OsStrExt;
		let p = ::std::ffi::CStr::from_ptr(path as *const _).to_bytes();
		if !p.is_empty() {
			return match disk().peek(Path::new(::std::ffi::OsStr::from_bytes(p)), flags & 0x100 == 0) {
				Some((kind, len)) => {
					::std::ptr::write_bytes(out, 0, 256);
					*(out as *mut u32) = 0x7ff;
					*(out.add(4) as *mut u32) = 4096;
					*(out.add(16) as *mut u32) = 1;
					*(out.add(28) as *mut u16) = match kind {
						Kind::Dir => 0o40755,
						Kind::File => 0o100644,
						Kind::Link => 0o120777,
					};
					*(out.add(40) as *mut u64) = len;
					0
				}
				None => {
					*__errno_location() = 2;
					-1
				}
			};
		}
	}
	syscall(332, dir as i64, path, flags as i64, mask as i64, out) as i32
}

/// `Path::canonicalize()` ends here.
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const i8, out: *mut i8) -> *mut i8 {
	extern "C" {
		fn __errno_location() -> *mut i32;
		fn malloc(n: usize) -> *mut i8;
		fn canonicalize_file_name(path: *const i8) -> *mut i8;
	}
	if !simrt::in_sim() || path.is_null() || !out.is_null() {
		return canonicalize_file_name(path);
	}
	use ::std::os::unix::ffi::OsStrExt;
	let p = ::std::ffi::CStr::from_ptr(path as *const _).to_bytes();
	match disk().real(Path::new(::std::ffi::OsStr::from_bytes(p))) {
		Some(q) => {
			let b = q.as_os_str().as_bytes();
			let r = malloc(b.len() + 1);
			::std::ptr::copy_nonoverlapping(b.as_ptr() as *const i8, r, b.len());
			*r.add(b.len()) = 0;
			r
		}
		None => {
			*__errno_location() = 2;
			::std::ptr::null_mut()
		}
	}
}
