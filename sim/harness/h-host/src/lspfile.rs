//! C09 without the server around it: histories of changes to one document, with every position of it looked up after each change.
use crate::text::{Conv, Pos};
use analyzer_core::lsp_file::{ChangeEvent, LspFile, Position, Range};
use simrt::{chance, draw, draw_range, fail, note, probe};

/// The unit of positions is the code point here, and only line feeds end lines: see the known findings.
const C: Conv = Conv { utf16: false, cr: false };

fn snippet(max: usize, wide: bool, crlf: bool) -> String {
	let mut s = String::new();
	for _ in 0..draw(max + 1) {
		match draw(6) {
			0 | 1 => s.push_str(if crlf { "\r\n" } else { "\n" }),
			2 if wide => s.push(['é', '漢', '😀', '\u{301}'][draw(4)]),
			_ => s.push((b'a' + draw(26) as u8) as char),
		}
	}
	s
}

/// A place of the text at which there is a position.
fn place(t: &str, o: usize) -> bool { t.is_char_boundary(o) && !t[..o].ends_with('\r') }

fn to(p: Pos) -> Position { Position::new(p.line, p.ch) }
fn from(p: Position) -> Pos { Pos { line: p.line, ch: p.character } }

fn short(t: &str) -> String { t.chars().take(2000).collect() }

/// Everything that can be asked about a document agrees with its text.
fn compare(f: &LspFile, t: &str, history: &[String]) {
	if f.get_file_content() != t {
		fail("text-mismatch", format!("{:?} instead of {:?} after {history:?}", short(&f.get_file_content()), short(t)));
	}
	let fresh = LspFile::new(&t.to_string());
	let lines = t.split('\n').count();
	let counts: Vec<usize> = t.split_inclusive('\n').map(|l| l.chars().count()).collect();
	// of a large document, only some of the positions
	let every = t.len() / 300 + 1;
	for o in (0..=t.len()).filter(|o| (every == 1 || *o == t.len() || o % every == draw(every)) && place(t, *o)) {
		let p = C.position(t, o);
		let got = f.lsp_to_byte(&to(p));
		if got != o {
			fail("position-mismatch", format!("{p:?} of {:?} is at byte {got} instead of {o} after {history:?}", short(t)));
		}
		// an end that is not on a line may be expressed in two ways
		let got = f.byte_to_lsp(o);
		if C.offset(t, from(got)) != o || (from(got) != p && !(o == t.len() && !t.is_empty() && from(got) == Pos { line: lines, ch: 0 })) || got != fresh.byte_to_lsp(o) {
			fail("position-mismatch", format!("byte {o} of {:?} is at {got:?} instead of {p:?} after {history:?}", short(t)));
		}
	}
	{
		let (a, b) = (draw(t.len() + 1), draw(t.len() + 1));
		let (a, b) = (a.min(b), a.max(b));
		if place(t, a) && place(t, b) {
			let (p, q) = (C.position(t, a), C.position(t, b));
			let got = f.lsp_range_to_byte_range(&Range::new(to(p), to(q)));
			if got != (a..b) {
				fail("position-mismatch", format!("{p:?} to {q:?} of {:?} is {got:?} instead of {a}..{b} after {history:?}", short(t)));
			}
			let got = f.byte_range_to_lsp_range(&(a..b));
			if from(got.start) != from(f.byte_to_lsp(a)) || from(got.end) != from(f.byte_to_lsp(b)) {
				fail("position-mismatch", format!("{a}..{b} of {:?} is {got:?} instead of {p:?} to {q:?} after {history:?}", short(t)));
			}
		}
	}
	for line in (0..lines + 2).step_by(lines / 60 + 1).chain(lines.saturating_sub(1)..lines + 2) {
		for ch in [0, 1, 7, 1000] {
			let p = Pos { line, ch };
			if t.contains('\r') && line < lines && ch > 0 {
				continue; // the line break would come into play beyond the end of the line
			}
			let got = f.lsp_to_byte(&to(p));
			if got != C.offset(t, p) {
				fail("position-mismatch", format!("{p:?} of {:?} is at byte {got} instead of {} after {history:?}", short(t), C.offset(t, p)));
			}
		}
		// the line break is one of the characters of a line
		let want = counts.get(line).copied().unwrap_or(0);
		if f.line_char(line) != want || fresh.line_char(line) != want {
			fail("position-mismatch", format!("line {line} of {:?} has {} characters instead of {want} after {history:?}", short(t), f.line_char(line)));
		}
	}
}

pub fn run() {
	probe("document on its own");
	let wide = chance(1, 2);
	let crlf = chance(1, 4);
	let big = chance(1, 150);
	if big {
		probe("large document on its own");
	}
	let mut t = snippet(if big { [300, 5000, 20_000][draw(3)] } else { 20 }, wide, crlf);
	let mut f = LspFile::new(&t);
	let mut history = vec![format!("{:?}", short(&t))];
	let n = draw_range(1, [4, 12, 40][draw(3)]);
	note(format!("{n} changes to a document on its own"));
	compare(&f, &t, &history);
	let each = chance(2, 3);
	for k in 0..n {
		simrt::op();
		let pos = |t: &str| {
			if !crlf && chance(1, 6) {
				Pos { line: draw(t.split('\n').count() + 3), ch: draw(9) }
			} else {
				let mut o = draw(t.len() + 1);
				while !place(t, o) {
					o -= 1;
				}
				C.position(t, o)
			}
		};
		let new = if chance(1, 4) { String::new() } else { snippet(if big && chance(1, 4) { 2000 } else { [1, 3, 10][draw(3)] }, wide, crlf) };
		if chance(1, 16) {
			f.lazy_add(&ChangeEvent { range: None, text: new.clone() });
			history.push(format!("all of it := {new:?}"));
			t = new;
		} else {
			let a = pos(&t);
			let b = match draw(4) {
				0 => a,
				1 if !crlf => Pos { line: a.line, ch: a.ch + draw(4) },
				2 => Pos { line: a.line + 1, ch: 0 },
				_ => pos(&t),
			};
			let (a, b) = (a.min(b), a.max(b));
			history.push(format!("{}:{}-{}:{} := {new:?}", a.line, a.ch, b.line, b.ch));
			let (x, y) = (C.offset(&t, a), C.offset(&t, b));
			t.replace_range(x..y, &new);
			f.lazy_add(&ChangeEvent { range: Some(Range::new(to(a), to(b))), text: new });
		}
		if big {
			history.truncate(0);
		}
		if k + 1 == n {
			simrt::log(format!("{history:?}"));
		}
		if each || k + 1 == n {
			compare(&f, &t, &history);
		}
	}
}
