//! The disk of the simulated machine: an in-memory tree of directories and files with faults.
use ::std::collections::BTreeMap;
use ::std::io::{Error, ErrorKind, Result};
use ::std::path::{Component, Path, PathBuf};
use ::std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
	Dir,
	File(Vec<u8>),
	Link(PathBuf),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	File,
	Dir,
	Link,
}
impl Node {
	fn stat(&self) -> (Kind, u64) {
		match self {
			Node::Dir => (Kind::Dir, 0),
			Node::File(d) => (Kind::File, d.len() as u64),
			Node::Link(t) => (Kind::Link, t.as_os_str().len() as u64),
		}
	}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct DiskFaults {
	/// one in n operations fails with an I/O error (0 = never)
	pub read_error: usize,
	pub write_error: usize,
	pub short_write: usize,
	/// only what reads part by part sees it
	pub short_read: usize,
	pub dir_error: usize,
	/// one in n operations is slow (virtual ms up to the given bound)
	pub slow: usize,
	pub slow_ms: u64,
	/// one in n reads is interrupted by the concurrent write of another program and sees a prefix
	pub torn_read: usize,
}

pub struct SimDisk {
	st: Mutex<St>,
}
struct St {
	nodes: BTreeMap<PathBuf, Node>,
	cwd: PathBuf,
	faults: DiskFaults,
	unreadable: BTreeMap<PathBuf, ErrorKind>,
	capacity: Option<usize>,
	log: Vec<(u64, String)>,
}
impl Default for SimDisk {
	fn default() -> Self {
		let mut nodes = BTreeMap::new();
		nodes.insert(PathBuf::from("/"), Node::Dir);
		SimDisk {
			st: Mutex::new(St {
				nodes,
				cwd: PathBuf::from("/"),
				faults: DiskFaults::default(),
				unreadable: BTreeMap::new(),
				capacity: None,
				log: vec![],
			}),
		}
	}
}

pub fn disk() -> ::std::sync::Arc<SimDisk> { simrt::ext::<SimDisk>() }

fn norm(cwd: &Path, p: &Path) -> PathBuf {
	let full = if p.is_absolute() { p.to_path_buf() } else { cwd.join(p) };
	let mut o = PathBuf::from("/");
	for c in full.components() {
		match c {
			Component::RootDir | Component::Prefix(_) | Component::CurDir => {}
			Component::ParentDir => {
				o.pop();
			}
			Component::Normal(x) => o.push(x),
		}
	}
	o
}

/// The path without symbolic links, the last component included if `last`. A loop of links stays as it is.
fn resolve(nodes: &BTreeMap<PathBuf, Node>, cwd: &Path, p: &Path, last: bool) -> PathBuf {
	let full = if p.is_absolute() { p.to_path_buf() } else { cwd.join(p) };
	let mut todo: Vec<::std::ffi::OsString> = full.components().map(|c| c.as_os_str().to_os_string()).collect();
	todo.reverse();
	let (mut o, mut hops) = (PathBuf::from("/"), 0);
	while let Some(c) = todo.pop() {
		match Path::new(&c).components().next() {
			None | Some(Component::CurDir) | Some(Component::Prefix(_)) => {}
			Some(Component::RootDir) => o = PathBuf::from("/"),
			Some(Component::ParentDir) => {
				o.pop();
			}
			Some(Component::Normal(x)) => {
				let next = o.join(x);
				match nodes.get(&next) {
					Some(Node::Link(target)) if (last || !todo.is_empty()) && hops < 40 => {
						hops += 1;
						todo.extend(target.components().rev().map(|c| c.as_os_str().to_os_string()));
					}
					_ => o = next,
				}
			}
		}
	}
	o
}
fn eloop() -> Error { Error::from_raw_os_error(40) }

impl SimDisk {
	// ---- world side (no faults, no scheduling)
	pub fn put_dir(&self, p: &str) {
		let mut s = self.st.lock().unwrap();
		let p = norm(&s.cwd, Path::new(p));
		let mut a = p.as_path();
		let mut todo = vec![a.to_path_buf()];
		while let Some(q) = a.parent() {
			todo.push(q.to_path_buf());
			a = q;
		}
		for t in todo {
			s.nodes.insert(t, Node::Dir);
		}
	}
	pub fn put(&self, p: &str, data: &[u8]) {
		let path = Path::new(p);
		if let Some(par) = path.parent() {
			self.put_dir(par.to_str().unwrap());
		}
		let mut s = self.st.lock().unwrap();
		let p = norm(&s.cwd, path);
		s.nodes.insert(p, Node::File(data.to_vec()));
	}
	pub fn put_link(&self, p: &str, target: &str) {
		let path = Path::new(p);
		if let Some(par) = path.parent() {
			self.put_dir(par.to_str().unwrap());
		}
		let mut s = self.st.lock().unwrap();
		let p = norm(&s.cwd, path);
		s.nodes.insert(p, Node::Link(PathBuf::from(target)));
	}
	pub fn del(&self, p: &str) {
		let mut s = self.st.lock().unwrap();
		let p = norm(&s.cwd, Path::new(p));
		s.nodes.retain(|k, _| !k.starts_with(&p));
	}
	pub fn get(&self, p: &str) -> Option<Vec<u8>> {
		let s = self.st.lock().unwrap();
		let p = norm(&s.cwd, Path::new(p));
		match s.nodes.get(&p) {
			Some(Node::File(d)) => Some(d.clone()),
			_ => None,
		}
	}
	pub fn files(&self) -> Vec<(PathBuf, Vec<u8>)> {
		let s = self.st.lock().unwrap();
		s.nodes
			.iter()
			.filter_map(|(k, v)| if let Node::File(d) = v { Some((k.clone(), d.clone())) } else { None })
			.collect()
	}
	pub fn set_cwd(&self, p: &str) { self.st.lock().unwrap().cwd = PathBuf::from(p) }
	pub fn set_faults(&self, f: DiskFaults) { self.st.lock().unwrap().faults = f }
	pub fn set_unreadable(&self, p: &str, k: Option<ErrorKind>) {
		let mut s = self.st.lock().unwrap();
		let p = norm(&s.cwd, Path::new(p));
		match k {
			Some(k) => {
				s.unreadable.insert(p, k);
			}
			None => {
				s.unreadable.remove(&p);
			}
		}
	}
	pub fn set_capacity(&self, c: Option<usize>) { self.st.lock().unwrap().capacity = c }
	pub fn op_log(&self) -> Vec<(u64, String)> { self.st.lock().unwrap().log.clone() }

	// ---- program side
	fn enter(&self, what: &'static str, p: &Path) -> (PathBuf, DiskFaults) { self.enter_at(what, p, true) }
	/// `last`: whether a link that the path ends in is followed
	fn enter_at(&self, what: &'static str, p: &Path, last: bool) -> (PathBuf, DiskFaults) {
		simrt::yield_point(what);
		let (f, p) = {
			let s = self.st.lock().unwrap();
			(s.faults, resolve(&s.nodes, &s.cwd, p, last))
		};
		if f.slow > 0 && simrt::fault("disk-slow", 1, f.slow) {
			let ms = 1 + simrt::fault_pick(f.slow_ms.max(1) as usize) as u64;
			simrt::sleep_ns(ms * 1_000_000);
		}
		(p, f)
	}
	fn eio() -> Error { Error::new(ErrorKind::Other, "simulated I/O error") }

	pub fn read(&self, p: &Path) -> Result<Vec<u8>> {
		let (p, f) = self.enter("disk.read", p);
		if f.read_error > 0 && simrt::fault("disk-read-error", 1, f.read_error) {
			return Err(Self::eio());
		}
		let s = self.st.lock().unwrap();
		if let Some(k) = s.unreadable.get(&p) {
			simrt::count_fault("disk-unreadable");
			return Err((*k).into());
		}
		match s.nodes.get(&p) {
			Some(Node::File(d)) => {
				let mut d = d.clone();
				drop(s);
				if f.torn_read > 0 && !d.is_empty() && simrt::fault("disk-torn-read", 1, f.torn_read) {
					d.truncate(simrt::fault_pick(d.len()));
				}
				Ok(d)
			}
			Some(Node::Dir) => Err(Error::new(ErrorKind::Other, "is a directory")),
			Some(Node::Link(_)) => Err(eloop()),
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	pub fn create(&self, p: &Path, truncate: bool, must_be_new: bool) -> Result<PathBuf> {
		let (p, f) = self.enter("disk.create", p);
		if f.write_error > 0 && simrt::fault("disk-create-error", 1, f.write_error) {
			return Err(Self::eio());
		}
		let mut s = self.st.lock().unwrap();
		match s.nodes.get(&p) {
			Some(Node::Dir) => return Err(Error::new(ErrorKind::Other, "is a directory")),
			Some(Node::Link(_)) => return Err(eloop()),
			Some(Node::File(_)) if must_be_new => return Err(ErrorKind::AlreadyExists.into()),
			Some(Node::File(_)) if !truncate => return Ok(p),
			_ => {}
		}
		match p.parent().and_then(|q| s.nodes.get(q)) {
			Some(Node::Dir) => {}
			_ => return Err(ErrorKind::NotFound.into()),
		}
		s.nodes.insert(p.clone(), Node::File(vec![]));
		let t = simrt::tick();
		s.log.push((t, format!("create {}", p.display())));
		Ok(p)
	}
	pub fn append(&self, p: &Path, at: Option<usize>, b: &[u8]) -> Result<usize> {
		let (p, f) = self.enter("disk.write", p);
		if f.write_error > 0 && simrt::fault("disk-write-error", 1, f.write_error) {
			return Err(Self::eio());
		}
		let mut n = b.len();
		if f.short_write > 0 && n > 1 && simrt::fault("disk-short-write", 1, f.short_write) {
			n = 1 + simrt::fault_pick(n - 1);
		}
		let mut s = self.st.lock().unwrap();
		if let Some(c) = s.capacity {
			let used: usize = s.nodes.values().map(|v| if let Node::File(d) = v { d.len() } else { 0 }).sum();
			if used >= c {
				simrt::count_fault("disk-full");
				return Err(Error::from_raw_os_error(28));
			}
			n = n.min(c - used);
		}
		match s.nodes.get_mut(&p) {
			Some(Node::File(d)) => {
				let at = at.unwrap_or(d.len());
				if d.len() < at + n {
					d.resize(at + n, 0);
				}
				d[at..at + n].copy_from_slice(&b[..n]);
				Ok(n)
			}
			// the file was unlinked while open
			_ => Ok(n),
		}
	}
	pub fn exists(&self, p: &Path) -> bool {
		let (p, _) = self.enter("disk.stat", p);
		self.st.lock().unwrap().nodes.get(&p).map_or(false, |n| !matches!(n, Node::Link(_)))
	}
	/// What `stat` says, at once and without faults.
	pub fn peek(&self, p: &Path, follow: bool) -> Option<(Kind, u64)> {
		let s = self.st.lock().unwrap();
		let n = s.nodes.get(&resolve(&s.nodes, &s.cwd, p, follow)).map(|n| n.stat());
		n.filter(|n| !follow || n.0 != Kind::Link)
	}
	/// The path without links of what exists, at once and without faults.
	pub fn real(&self, p: &Path) -> Option<PathBuf> {
		let s = self.st.lock().unwrap();
		let q = resolve(&s.nodes, &s.cwd, p, true);
		match s.nodes.get(&q) {
			None | Some(Node::Link(_)) => None,
			_ => Some(q),
		}
	}
	/// How much one call of `read` returns of the `n` bytes that it could.
	pub fn read_part(&self, n: usize) -> usize {
		let f = self.st.lock().unwrap().faults;
		if f.short_read > 0 && n > 1 && simrt::fault("disk-short-read", 1, f.short_read) {
			1 + simrt::fault_pick(n - 1)
		} else {
			n
		}
	}
	pub fn stat(&self, p: &Path, follow: bool) -> Result<(Kind, u64)> {
		let (p, _) = self.enter_at("disk.stat", p, follow);
		match self.st.lock().unwrap().nodes.get(&p) {
			Some(Node::Link(_)) if follow => Err(eloop()),
			Some(n) => Ok(n.stat()),
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	pub fn canonicalize(&self, p: &Path) -> Result<PathBuf> {
		let (q, _) = self.enter("disk.canonicalize", p);
		match self.st.lock().unwrap().nodes.get(&q) {
			Some(Node::Link(_)) => Err(eloop()),
			Some(_) => Ok(q),
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	pub fn read_link(&self, p: &Path) -> Result<PathBuf> {
		let (q, _) = self.enter_at("disk.readlink", p, false);
		match self.st.lock().unwrap().nodes.get(&q) {
			Some(Node::Link(t)) => Ok(t.clone()),
			Some(_) => Err(ErrorKind::InvalidInput.into()),
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	pub fn list(&self, asked: &Path) -> Result<Vec<(PathBuf, Kind)>> {
		let (p, f) = self.enter("disk.list", asked);
		if f.dir_error > 0 && simrt::fault("disk-dir-error", 1, f.dir_error) {
			return Err(Self::eio());
		}
		let s = self.st.lock().unwrap();
		if let Some(k) = s.unreadable.get(&p) {
			simrt::count_fault("disk-unreadable");
			return Err((*k).into());
		}
		match s.nodes.get(&p) {
			Some(Node::Dir) => {}
			Some(_) => return Err(Error::new(ErrorKind::Other, "not a directory")),
			None => return Err(ErrorKind::NotFound.into()),
		}
		Ok(s
			.nodes
			.iter()
			.filter(|(k, _)| k.parent() == Some(p.as_path()))
			.map(|(k, v)| (asked.join(k.file_name().unwrap()), v.stat().0))
			.collect())
	}
	pub fn mkdir(&self, p: &Path, all: bool) -> Result<()> {
		let (p, _) = self.enter("disk.mkdir", p);
		if all {
			self.put_dir(p.to_str().unwrap());
			return Ok(());
		}
		let mut s = self.st.lock().unwrap();
		if s.nodes.contains_key(&p) {
			return Err(ErrorKind::AlreadyExists.into());
		}
		s.nodes.insert(p, Node::Dir);
		Ok(())
	}
	pub fn remove(&self, p: &Path) -> Result<()> {
		let (p, _) = self.enter_at("disk.remove", p, false);
		let mut s = self.st.lock().unwrap();
		if s.nodes.remove(&p).is_none() {
			return Err(ErrorKind::NotFound.into());
		}
		Ok(())
	}
	pub fn remove_tree(&self, p: &Path) -> Result<()> {
		let (p, _) = self.enter_at("disk.remove", p, false);
		let mut s = self.st.lock().unwrap();
		let n = s.nodes.len();
		s.nodes.retain(|k, _| !k.starts_with(&p));
		if n == s.nodes.len() {
			return Err(ErrorKind::NotFound.into());
		}
		Ok(())
	}
	pub fn rename(&self, a: &Path, b: &Path) -> Result<()> {
		let (a, _) = self.enter_at("disk.rename", a, false);
		let mut s = self.st.lock().unwrap();
		let b = norm(&s.cwd, b);
		match s.nodes.remove(&a) {
			Some(n) => {
				s.nodes.insert(b, n);
				Ok(())
			}
			None => Err(ErrorKind::NotFound.into()),
		}
	}
}
