//! Documents as the LSP specification sees them: lines, positions in UTF-16 code units, changes applied to ranges.
use simrt::{chance, draw, draw_range};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Pos {
	pub line: usize,
	pub ch: usize,
}

#[derive(Clone, Debug)]
pub struct Change {
	pub range: Option<(Pos, Pos)>,
	pub text: String,
}

/// How positions are counted. The specification counts UTF-16 code units, and '\r' on its own ends a line.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Conv {
	pub utf16: bool,
	pub cr: bool,
}
pub const LSP: Conv = Conv { utf16: true, cr: true };
/// What the server does instead.
pub const SERVER: Conv = Conv { utf16: false, cr: false };

impl Conv {
	/// (start, end without line break, end with it) of each line, in bytes
	fn lines(&self, t: &str) -> Vec<(usize, usize, usize)> {
		let b = t.as_bytes();
		let mut out = vec![];
		let mut s = 0;
		let mut i = 0;
		while i < b.len() {
			if b[i] == b'\n' {
				let e = if self.cr && i > s && b[i - 1] == b'\r' { i - 1 } else { i };
				out.push((s, e, i + 1));
				s = i + 1;
			} else if self.cr && b[i] == b'\r' && b.get(i + 1) != Some(&b'\n') {
				out.push((s, i, i + 1));
				s = i + 1;
			}
			i += 1;
		}
		out.push((s, b.len(), b.len()));
		out
	}
	fn units(&self, c: char) -> usize {
		if self.utf16 {
			c.len_utf16()
		} else {
			1
		}
	}
	pub fn offset(&self, t: &str, p: Pos) -> usize {
		let ls = self.lines(t);
		let Some(&(s, e, _)) = ls.get(p.line) else { return t.len() };
		let mut units = 0;
		for (i, c) in t[s..e].char_indices() {
			if units >= p.ch {
				return s + i;
			}
			units += self.units(c);
		}
		e
	}
	pub fn position(&self, t: &str, o: usize) -> Pos {
		let ls = self.lines(t);
		let n = ls.iter().rposition(|l| l.0 <= o).unwrap();
		let (s, e, _) = ls[n];
		Pos { line: n, ch: t[s..o.min(e).max(s)].chars().map(|c| self.units(c)).sum() }
	}
	pub fn apply(&self, t: &mut String, c: &Change) {
		match c.range {
			None => *t = c.text.clone(),
			Some((a, b)) => {
				let (a, b) = (self.offset(t, a), self.offset(t, b));
				t.replace_range(a.min(b)..a.max(b), &c.text);
			}
		}
	}
}
fn lines(t: &str) -> Vec<(usize, usize, usize)> { LSP.lines(t) }
pub fn offset(t: &str, p: Pos) -> usize { LSP.offset(t, p) }
pub fn position(t: &str, o: usize) -> Pos { LSP.position(t, o) }

/// The identifiers of a text without comments, numbers, keywords or directives, in order of first appearance.
pub fn words(t: &str) -> Vec<String> {
	let mut out: Vec<String> = vec![];
	let mut w = String::new();
	for c in t.chars().chain(Some(' ')) {
		if c.is_ascii_alphabetic() {
			w.push(c)
		} else if !w.is_empty() {
			if !out.contains(&w) {
				out.push(w.clone());
			}
			w.clear();
		}
	}
	out
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Style {
	pub crlf: bool,
	pub wide: bool,
	pub astral: bool,
	pub cr: bool,
}

pub fn word() -> String {
	let n = draw_range(1, 4);
	(0..n).map(|_| ['q', 'x', 'z', 'j', 'k', 'v'][draw(6)]).collect()
}

pub fn text(st: Style, max: usize) -> String {
	let mut s = String::new();
	for _ in 0..draw(max + 1) {
		match draw(8) {
			0..=3 => s.push_str(&word()),
			4 => s.push_str(if st.crlf { "\r\n" } else { "\n" }),
			5 => s.push([' ', ';', '\t', '{'][draw(4)]),
			6 if st.wide => s.push(['é', '漢', 'ß', '\u{2028}'][draw(4)]),
			6 if st.astral => s.push('😀'),
			6 if st.cr => s.push('\r'),
			_ => s.push(' '),
		}
	}
	s
}

/// A position of the text; sometimes one beyond the end of a line or of the document, which clients may send as well.
pub fn pos(t: &str, st: Style) -> Pos {
	let mut at = draw(t.len() + 1);
	while !t.is_char_boundary(at) {
		at -= 1;
	}
	let mut p = position(t, at);
	if !st.crlf && !st.cr && chance(1, 8) {
		p.ch += draw_range(1, 5);
	}
	if chance(1, 12) {
		p = Pos { line: lines(t).len() - 1 + draw(4), ch: draw(6) };
		if chance(1, 4) {
			// clients that mean the end do not always say where it is
			let far = [i32::MAX as usize, u32::MAX as usize, 1 << 16][draw(3)];
			p = if chance(1, 2) { Pos { line: p.line, ch: far } } else { Pos { line: far, ch: [0, far][draw(2)] } };
		}
		if (st.crlf || st.cr) && p.line < lines(t).len() {
			p = position(t, t.len());
		}
	}
	p
}

pub fn change(t: &str, st: Style) -> Change {
	if chance(1, 10) {
		return Change { range: None, text: text(st, 12) };
	}
	let a = pos(t, st);
	let b = match draw(4) {
		0 => a,
		1 => Pos { line: a.line, ch: (a.ch + draw(4)).min(u32::MAX as usize) },
		_ => pos(t, st),
	};
	let (mut a, mut b) = (a.min(b), a.max(b));
	if st.crlf || st.cr {
		// stay on the text: beyond the end of a line, the line break would come into play
		a = position(t, offset(t, a));
		b = position(t, offset(t, b));
	}
	if st.astral {
		a = position(t, offset(t, a));
		b = position(t, offset(t, b));
	}
	if chance(1, 24) {
		std::mem::swap(&mut a, &mut b);
	}
	let text = match draw(4) {
		0 => String::new(),
		1 => text(st, 2),
		2 => word(),
		_ => text(st, 8),
	};
	Change { range: Some((a, b)), text }
}
