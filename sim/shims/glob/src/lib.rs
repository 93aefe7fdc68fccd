//! The interface and semantics of glob 0.3.1 over the simulated disk: lazily evaluated, depth first, alphabetical, unreadable
//! directories are yielded as errors.
use std::fmt;
use std::io;
use std::path::{Component, Path, PathBuf};

#[derive(Debug)]
pub struct PatternError {
	pub pos: usize,
	pub msg: &'static str,
}
impl fmt::Display for PatternError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Pattern syntax error near position {}: {}", self.pos, self.msg) }
}
impl std::error::Error for PatternError {}

#[derive(Debug)]
pub struct GlobError {
	path: PathBuf,
	error: io::Error,
}
impl GlobError {
	pub fn path(&self) -> &Path { &self.path }
	pub fn error(&self) -> &io::Error { &self.error }
	pub fn into_error(self) -> io::Error { self.error }
}
impl fmt::Display for GlobError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "attempting to read `{}` resulted in an error: {}", self.path.display(), self.error)
	}
}
impl std::error::Error for GlobError {}
pub type GlobResult = Result<PathBuf, GlobError>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MatchOptions {
	pub case_sensitive: bool,
	pub require_literal_separator: bool,
	pub require_literal_leading_dot: bool,
}
impl MatchOptions {
	pub fn new() -> Self { MatchOptions { case_sensitive: true, require_literal_separator: false, require_literal_leading_dot: false } }
}
impl Default for MatchOptions {
	// In 0.3.1 this is not what `new` gives.
	fn default() -> Self { MatchOptions { case_sensitive: false, ..MatchOptions::new() } }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
	Ch(char),
	Any,
	Seq,
	RecSeq,
	Within(Vec<(char, char)>, bool),
}
#[derive(Clone, Debug)]
pub struct Pattern {
	original: String,
	toks: Vec<Tok>,
	recursive: bool,
}
impl Pattern {
	pub fn new(p: &str) -> Result<Pattern, PatternError> {
		let c: Vec<char> = p.chars().collect();
		let (mut toks, mut i, mut recursive) = (vec![], 0, false);
		while i < c.len() {
			match c[i] {
				'?' => {
					toks.push(Tok::Any);
					i += 1;
				}
				'*' => {
					let old = i;
					while i < c.len() && c[i] == '*' {
						i += 1;
					}
					match i - old {
						1 => toks.push(Tok::Seq),
						2 => {
							if old > 0 && c[old - 1] != '/' {
								return Err(PatternError { pos: old - 1, msg: "recursive wildcards must form a single path component" });
							}
							if i < c.len() && c[i] != '/' {
								return Err(PatternError { pos: i, msg: "recursive wildcards must form a single path component" });
							}
							if i < c.len() {
								i += 1;
							}
							recursive = true;
							toks.push(Tok::RecSeq);
						}
						_ => return Err(PatternError { pos: old + 2, msg: "wildcards are either regular `*` or recursive `**`" }),
					}
				}
				'[' => {
					let neg = c.get(i + 1) == Some(&'!');
					let from = if neg { i + 2 } else { i + 1 };
					let end = if from < c.len() { c[from + 1..].iter().position(|x| *x == ']').map(|x| x + from + 1) } else { None };
					match end {
						Some(e) => {
							let s = &c[from..e];
							let (mut v, mut k) = (vec![], 0);
							while k < s.len() {
								if k + 2 < s.len() && s[k + 1] == '-' {
									v.push((s[k], s[k + 2]));
									k += 3;
								} else {
									v.push((s[k], s[k]));
									k += 1;
								}
							}
							toks.push(Tok::Within(v, !neg));
							i = e + 1;
						}
						None => return Err(PatternError { pos: i, msg: "invalid range pattern" }),
					}
				}
				x => {
					toks.push(Tok::Ch(x));
					i += 1;
				}
			}
		}
		Ok(Pattern { original: p.into(), toks, recursive })
	}
	pub fn escape(s: &str) -> String {
		let mut o = String::new();
		for c in s.chars() {
			match c {
				'?' | '*' | '[' | ']' => {
					o.push('[');
					o.push(c);
					o.push(']');
				}
				c => o.push(c),
			}
		}
		o
	}
	pub fn as_str(&self) -> &str { &self.original }
	pub fn matches(&self, s: &str) -> bool { self.matches_with(s, MatchOptions::new()) }
	pub fn matches_with(&self, s: &str, o: MatchOptions) -> bool {
		// `lead`: at the start of a path component
		fn go(t: &[Tok], s: &[char], lead: bool, o: &MatchOptions) -> bool {
			let wild = |c: char, lead: bool| !(o.require_literal_separator && c == '/') && !(o.require_literal_leading_dot && lead && c == '.');
			match t.first() {
				None => s.is_empty(),
				Some(Tok::Seq) => {
					let mut lead = lead;
					for k in 0..=s.len() {
						if go(&t[1..], &s[k..], lead, o) {
							return true;
						}
						if k == s.len() || !wild(s[k], lead) {
							return false;
						}
						lead = s[k] == '/';
					}
					false
				}
				Some(Tok::RecSeq) => (0..=s.len()).any(|k| {
					let lead = k == 0 || s[k - 1] == '/';
					(lead || k == s.len()) && go(&t[1..], &s[k..], lead, o)
				}),
				Some(x) => match s.first() {
					None => false,
					Some(c) => {
						let eq = |a: char, b: char| a == b || !o.case_sensitive && a.eq_ignore_ascii_case(&b);
						let within = |a: char, b: char, c: char| {
							a <= c && c <= b || !o.case_sensitive && c.is_ascii_alphabetic() && (a.to_ascii_lowercase()..=b.to_ascii_lowercase()).contains(&c.to_ascii_lowercase())
						};
						(match x {
							Tok::Ch(y) => eq(*y, *c),
							Tok::Any => wild(*c, lead),
							Tok::Within(v, pos) => wild(*c, lead) && v.iter().any(|(a, b)| within(*a, *b, *c)) == *pos,
							_ => unreachable!(),
						}) && go(&t[1..], &s[1..], *c == '/', o)
					}
				},
			}
		}
		go(&self.toks, &s.chars().collect::<Vec<_>>(), true, &o)
	}
	pub fn matches_path(&self, p: &Path) -> bool { p.to_str().map_or(false, |s| self.matches(s)) }
	pub fn matches_path_with(&self, p: &Path, o: MatchOptions) -> bool { p.to_str().map_or(false, |s| self.matches_with(s, o)) }
	fn literal(&self) -> Option<String> {
		self.toks.iter().map(|t| if let Tok::Ch(c) = t { Some(*c) } else { None }).collect()
	}
}

impl fmt::Display for Pattern {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.original.fmt(f) }
}
impl std::str::FromStr for Pattern {
	type Err = PatternError;
	fn from_str(s: &str) -> Result<Self, PatternError> { Pattern::new(s) }
}

#[derive(Debug)]
pub struct Paths {
	options: MatchOptions,
	parts: Vec<Pattern>,
	dir_only: bool,
	// (path, index of the pattern its last component has to match), or an error
	todo: Vec<Result<(PathBuf, usize), GlobError>>,
}

pub fn glob(p: &str) -> Result<Paths, PatternError> { glob_with(p, MatchOptions::new()) }
pub fn glob_with(pattern: &str, options: MatchOptions) -> Result<Paths, PatternError> {
	Pattern::new(pattern)?;
	let root = if pattern.starts_with('/') { PathBuf::from("/") } else { PathBuf::from(".") };
	let mut parts = vec![];
	for c in pattern.split('/').filter(|c| !c.is_empty()) {
		parts.push(Pattern::new(c)?);
	}
	let mut r = Paths { options, parts, dir_only: pattern.ends_with('/'), todo: vec![] };
	if r.parts.is_empty() {
		return Ok(r);
	}
	r.fill(0, root);
	Ok(r)
}
fn is_dir(p: &Path) -> bool { simstd::fs::metadata(p).map(|m| m.is_dir()).unwrap_or(false) }

impl Paths {
	fn fill(&mut self, idx: usize, dir: PathBuf) {
		let cur = dir.components().next() == Some(Component::CurDir);
		let join = |x: &str| if cur && dir == Path::new(".") { PathBuf::from(x) } else { dir.join(x) };
		if let Some(lit) = self.parts[idx].literal() {
			// a plain component: no listing needed
			let next = join(&lit);
			if simstd::fs::metadata(&next).is_ok() {
				if idx + 1 == self.parts.len() {
					self.todo.push(Ok((next, idx)));
				} else {
					self.fill(idx + 1, next);
				}
			}
			return;
		}
		if !is_dir(&dir) {
			return;
		}
		match simstd::fs::read_dir(&dir) {
			Err(error) => self.todo.push(Err(GlobError { path: dir, error })),
			Ok(entries) => {
				let mut ch: Vec<PathBuf> = vec![];
				for e in entries {
					match e {
						Ok(e) => ch.push(join(e.file_name().to_str().unwrap_or(""))),
						Err(error) => {
							self.todo.push(Err(GlobError { path: dir.clone(), error }));
							return;
						}
					}
				}
				if self.options.require_literal_leading_dot {
					ch.retain(|c| !c.file_name().and_then(|n| n.to_str()).unwrap_or("").starts_with('.'));
				}
				ch.sort_by(|a, b| b.file_name().cmp(&a.file_name()));
				for c in ch {
					self.todo.push(Ok((c, idx)));
				}
			}
		}
	}
}
impl Iterator for Paths {
	type Item = GlobResult;
	fn next(&mut self) -> Option<GlobResult> {
		loop {
			let (path, mut idx) = match self.todo.pop()? {
				Ok(x) => x,
				Err(e) => return Some(Err(e)),
			};
			if self.parts[idx].recursive {
				let mut next = idx;
				while next + 1 < self.parts.len() && self.parts[next + 1].recursive {
					next += 1;
				}
				if is_dir(&path) {
					// the directory's own children, at any depth
					self.fill(next, path.clone());
					if next == self.parts.len() - 1 {
						return Some(Ok(path));
					}
					idx = next + 1;
				} else if next == self.parts.len() - 1 {
					continue;
				} else {
					idx = next + 1;
				}
			}
			let name = match path.file_name().and_then(|s| s.to_str()) {
				Some(n) => n.to_string(),
				None => continue,
			};
			if self.parts[idx].matches_with(&name, self.options) {
				if idx == self.parts.len() - 1 {
					if !self.dir_only || is_dir(&path) {
						return Some(Ok(path));
					}
				} else {
					self.fill(idx + 1, path);
				}
			}
		}
	}
}
