//! Files with includes, macros and conditions, as a C preprocessor sees them.
use crate::text::word as letters;
use simrt::{chance, draw, draw_range, probe};
use std::{collections::BTreeMap, rc::Rc};

const MACROS: [&str; 34] = [
	"AA", "B_1", "__C", "Defined", "N00", "N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08", "N09", "N10", "N11", "N12", "N13", "N14", "N15",
	"N16", "N17", "N18", "N19", "N20", "N21", "N22", "N23", "N24", "N25", "N26", "N27", "N28", "N29",
];
/// how many of them are used anywhere; the others refer to each other in a row
const COMMON: usize = 4;
/// macros without a value, of which it only matters whether they are defined
const GUARDS: [&str; 3] = ["H_P4", "__ONCE__", "DONE"];

#[derive(Clone, Debug)]
pub enum Expr {
	Int(i64),
	Name(usize),
	Defined(usize),
	Not(Box<Expr>),
	Neg(Box<Expr>),
	Inv(Box<Expr>),
	/// a division that takes place only if the divisor, which is a macro, is not 0
	Guarded(bool, usize, i64),
	Bin(&'static str, Box<Expr>, Box<Expr>),
}

/// An identifier; none of them is a keyword or a macro.
fn word() -> String {
	if chance(2, 3) {
		return letters();
	}
	match draw(8) {
		0 => format!("{}{}", letters(), draw(100)),
		1 => format!("_{}", letters()),
		2 => format!("{}_", letters()),
		3 => letters().to_uppercase(),
		4 => format!("{}_{}_{}", letters().to_uppercase(), draw(10), letters()),
		// the names of keywords and directives, and more
		5 => format!("{}{}", ["if", "else", "header", "state", "table", "apply", "action", "typedef", "return", "include", "define", "defined"][draw(12)], letters()),
		6 => format!("_{}_", draw(10)),
		_ => format!("w{}s{}", draw(10), letters()),
	}
}

const OPS: [(&str, u8); 18] = [
	("*", 9),
	("/", 9),
	("%", 9),
	("+", 8),
	("-", 8),
	("<<", 7),
	(">>", 7),
	("<", 6),
	("<=", 6),
	(">", 6),
	(">=", 6),
	("==", 5),
	("!=", 5),
	("&", 4),
	("^", 3),
	("|", 2),
	("&&", 1),
	("||", 0),
];
fn level(op: &str) -> u8 { OPS.iter().find(|o| o.0 == op).unwrap().1 }

fn expr(depth: usize, macros: bool) -> Expr {
	if depth == 0 || chance(1, 4) {
		return match draw(if macros { 9 } else { 6 }) {
			0 => Expr::Int(0),
			1 => Expr::Int(1),
			2 | 3 => Expr::Int(draw(20) as i64),
			4..=6 => Expr::Name(draw(COMMON)),
			_ => Expr::Defined(draw(COMMON)),
		};
	}
	if chance(1, 7) {
		return Expr::Not(expr(depth - 1, macros).into());
	}
	if chance(1, 14) {
		let e = expr(depth - 1, macros).into();
		return if chance(1, 2) { Expr::Neg(e) } else { Expr::Inv(e) };
	}
	if chance(1, 14) {
		return Expr::Guarded(chance(1, 2), draw(COMMON), draw(20) as i64);
	}
	let op = OPS[draw(OPS.len())].0;
	let r = match op {
		"/" | "%" => Expr::Int(draw_range(1, 9) as i64),
		"<<" | ">>" => Expr::Int(draw(9) as i64),
		_ => expr(depth - 1, macros),
	};
	Expr::Bin(op, expr(depth - 1, macros).into(), r.into())
}

/// Macros in a row, each of which is the next, and what depends on the first.
fn row(n: usize) -> Vec<Item> {
	let len = draw_range(2, MACROS.len() - COMMON);
	let at = |k: usize| COMMON + k;
	let mut v: Vec<Item> = (0..len)
		.map(|k| {
			let e = if k + 1 == len { Expr::Int(draw(3) as i64) } else { Expr::Name(at(k + 1)) };
			let e = match draw(12) {
				0 => Expr::Bin("+", e.into(), Expr::Int(draw(2) as i64).into()),
				1 => Expr::Not(e.into()),
				_ => e,
			};
			Item::Define(at(k), e)
		})
		.collect();
	match draw(3) {
		0 => v.reverse(),
		1 => {
			for k in 1..len {
				v.swap(k, draw(k + 1));
			}
		}
		_ => {}
	}
	if chance(1, 4) {
		v.push(Item::Undef(at(draw(len))));
	}
	probe("macros in a row");
	v.push(Item::Cond(vec![(Expr::Name(at(0)), items(n, 0, 2))], Some(items(n, 0, 2))));
	v
}

/// Conditions within conditions, and parentheses within parentheses.
fn deep(n: usize) -> Item {
	let mut i = Item::Word(word());
	for _ in 0..draw_range(3, 40) {
		let mut c = expr(1, true);
		for _ in 0..if chance(1, 6) { draw([12, 50][draw(2)]) } else { 0 } {
			c = if chance(1, 2) { Expr::Not(c.into()) } else { Expr::Bin("-", Expr::Int(2).into(), c.into()) };
		}
		i = match draw(3) {
			0 => Item::Cond(vec![(c, vec![i]), (Expr::Int(1), items(n, 0, 1))], None),
			1 => Item::Cond(vec![(Expr::Not(Expr::Int(1).into()), items(n, 0, 1))], Some(vec![i])),
			_ => Item::Cond(vec![(Expr::Bin("||", c.into(), Expr::Int(1).into()), vec![i])], Some(items(n, 0, 1))),
		};
	}
	probe("conditions in conditions");
	i
}

/// `variant` decides about spaces and about parentheses that are not needed.
fn render_expr(e0: &Expr, min: u8, v: &mut dyn FnMut(usize) -> usize, out: &mut String) {
	match e0 {
		Expr::Int(n) if v(5) == 0 => out.push_str(&[format!("{n:#x}"), format!("{n:#X}").replace("0x", "0X"), format!("0x_{n:x}").replace("0x_", "0x0_"), format!("0_{n}")][v(4)]),
		Expr::Int(n) => out.push_str(&n.to_string()),
		Expr::Name(k) => out.push_str(MACROS[*k]),
		Expr::Defined(k) => {
			let m = MACROS[*k];
			out.push_str(&[format!("defined({m})"), format!("defined {m}"), format!("defined( {m} )"), format!("defined ({m})")][v(4)]);
		}
		Expr::Not(e) => {
			out.push('!');
			render_expr(e, 20, v, out);
		}
		Expr::Neg(e) | Expr::Inv(e) => {
			out.push_str(if matches!(e0, Expr::Neg(_)) { "-" } else { "~" });
			if v(4) == 0 {
				out.push(' ');
			}
			// "--" is something else
			let e: &Expr = e;
			if matches!(e, Expr::Neg(_)) {
				out.push('(');
			}
			render_expr(e, 20, v, out);
			if matches!(e, Expr::Neg(_)) {
				out.push(')');
			}
		}
		Expr::Guarded(and, k, n) => {
			let m = MACROS[*k];
			out.push_str(&if *and { format!("({m} != 0 && {n} / {m} > 1)") } else { format!("({m} == 0 || {n} % {m} == 1)") });
		}
		Expr::Bin(op, l, r) => {
			let n = level(op);
			let parens = n < min || v(6) == 0;
			if parens {
				out.push_str(["(", "( "][v(2)]);
			}
			render_expr(l, n, v, out);
			let sp = ["", " ", " "][v(3)];
			out.push_str(&format!("{sp}{op}{sp}"));
			render_expr(r, n + 1, v, out);
			if parens {
				out.push_str([")", " )"][v(2)]);
			}
		}
	}
}

#[derive(Clone, Debug)]
pub enum Item {
	Word(String),
	/// a lot of words
	Many(usize),
	Comment(usize, String),
	Include(usize),
	Missing,
	Define(usize, Expr),
	Undef(usize),
	/// something that does not matter here, on a line of its own
	Line(String),
	Number(usize),
	/// what is only there once
	Once(usize, Vec<Item>),
	/// #ifdef (or, if false, #ifndef) of a macro
	IfDef(bool, usize, Vec<Item>, Option<Vec<Item>>),
	Cond(Vec<(Expr, Vec<Item>)>, Option<Vec<Item>>),
}

const NUMBERS: [&str; 12] = ["8w10", "0b1001", "4s3", "0xFFFF_FFFF", "99999999999999999999", "1_000", "007", "0w0", "32w0xdeadBEEF", "99999999999w1", "0x", "8s0b1_1"];
const LINES: [&str; 9] = ["#pragma once ~", "#pragma", "#error ~ it \"~", "#line 3 \"~.p4\"", "#define FN(x, y) ((x) + ~)", "#define EMPTY", "#warning ~", "#define LONG 1 + ~", "#undef EMPTY"];
const COMMENTS: usize = 11;

pub struct File {
	pub items: Vec<Item>,
	/// what is at the end of a file that is being written: branches without an #endif
	open: Option<(Vec<(Expr, Vec<Item>)>, Option<Vec<Item>>)>,
	/// a comment that does not end
	comment: bool,
	/// decides how the file is written
	style: u64,
}

pub fn file(n: usize, depth: usize, max: usize) -> File { File { items: items(n, depth, max), open: None, comment: false, style: draw(1 << 16) as u64 } }

/// A file that is being written, and is not complete.
pub fn draft(n: usize, max: usize) -> File {
	let mut f = file(n, 1, max);
	// directives that belong to nothing
	for _ in 0..draw(2) {
		f.items.insert(0, Item::Line(["#endif", "#else", "#elif 1"][draw(3)].into()));
		f.items.insert(0, Item::Word(word()));
	}
	if chance(2, 3) {
		let branches = (0..draw_range(1, 3)).map(|_| (expr(draw(3), true), items(n, 1, 2))).collect();
		f.open = Some((branches, chance(1, 2).then(|| items(n, 1, 2))));
	}
	f.comment = chance(1, 3);
	f
}

fn items(n: usize, depth: usize, max: usize) -> Vec<Item> {
	let mut v = vec![];
	if depth > 0 && chance(1, 20) {
		v = row(n);
	}
	if depth > 0 && chance(1, 50) {
		v.push(deep(n));
	}
	if depth > 0 && chance(1, 400) {
		probe("many words");
		simrt::more_steps(2_000_000);
		v.push(Item::Many(100 << draw(5)));
	}
	for _ in 0..draw(max + 1) {
		v.push(match draw(12) {
			0 | 1 => Item::Include(draw(n)),
			2 if chance(1, 4) => Item::Missing,
			3 if depth > 0 => {
				let k = [1, 1, 1, 2, 3, 3, 4, 6][draw(8)];
				let branches = (0..k).map(|_| (expr(draw(4), true), items(n, depth - 1, 2))).collect();
				Item::Cond(branches, chance(2, 3).then(|| items(n, depth - 1, 2)))
			}
			4 | 10 | 11 => {
				let e = expr([0, 0, 1, 2][draw(4)], false);
				Item::Define(draw(COMMON), e)
			}
			5 if chance(1, 2) => Item::Undef(draw(COMMON)),
			6 if chance(1, 2) => Item::Comment(draw(COMMENTS + 3), word()),
			7 if chance(1, 3) => Item::Number(draw(NUMBERS.len())),
			8 if chance(1, 3) => Item::Line(LINES[draw(LINES.len())].replace('~', &word())),
			9 if depth > 0 && chance(1, 3) => Item::Once(draw(GUARDS.len()), items(n, depth - 1, 3)),
			9 if depth > 0 && chance(1, 3) => Item::IfDef(chance(1, 2), draw(COMMON), items(n, depth - 1, 2), chance(1, 2).then(|| items(n, depth - 1, 2))),
			_ => Item::Word(word()),
		});
	}
	v
}

fn many(k: usize) -> String { format!("many{k}") }

impl File {
	/// whether the file names others by their URLs
	pub fn absolute(&self) -> bool { self.style % 7 == 5 }
}

/// The text of the file. One that has a style of 0 is written plainly.
pub fn render(f: &File, names: &[String]) -> String {
	let mut s = f.style;
	let plain = s == 0;
	let mut v = |n: usize| {
		if plain {
			return 1 % n;
		}
		s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		(s >> 33) as usize % n
	};
	let mut out = String::new();
	render_items(&f.items, names, &mut v, &mut out);
	if let Some((b, o)) = &f.open {
		render_branches(b, o, names, &mut v, &mut out);
	}
	if f.style % 5 == 3 {
		out = out.replace('\n', "\r\n");
	}
	if f.style % 3 == 1 {
		out.push_str("// the end");
	}
	if f.comment {
		out.push_str("\n/* zzz\n#else\nzzzz *");
	}
	out
}

fn line(out: &mut String, text: &str, v: &mut dyn FnMut(usize) -> usize) {
	if !out.is_empty() && !out.ends_with('\n') {
		out.push('\n');
	}
	// what is within quotes, be they closed or not, is taken as it is
	let quiet = text.starts_with("#error");
	let text = match v(16) {
		0 | 8 => text.replacen('#', "# ", 1),
		2 => format!("  {text}"),
		// a line may be continued on the next one
		3 => text.replacen(' ', " \\\n ", 1),
		4 => format!("{text} // zzz"),
		5 if !quiet => text.replacen(' ', "/* zzz */ ", 1),
		6 if !quiet => text.replacen(' ', " /* zzz\n#endif\n**/ ", 1),
		7 if !quiet => format!("{text} /* zzz\n#endif\nzz */"),
		9 => format!("{text} // zzz \\\n zz"),
		10 => format!("{text} /*/ zzz //*/"),
		11 => text.replacen(' ', " \\\n\\\n\t", 1),
		_ => text.to_string(),
	};
	out.push_str(&text);
	out.push('\n');
}

fn render_items(items: &[Item], names: &[String], v: &mut dyn FnMut(usize) -> usize, out: &mut String) {
	for i in items {
		match i {
			Item::Word(w) => {
				out.push_str(w);
				out.push_str(match v(20) {
					k @ 0..=15 => ["; ", ".", "(", ") ", " = ", "{ ", "<", "> ", ", ", ":", "[", "-", "+ ", "* ", "}\n", "\t"][k],
					_ if w.len() % 2 == 0 => "\n",
					_ => " ",
				});
			}
			Item::Many(n) => {
				for k in 0..*n {
					out.push_str(&many(k));
					out.push([' ', '\n'][k % 2]);
				}
			}
			Item::Comment(k, w) => out.push_str(&match k {
				0 => format!("// {w} #else\n"),
				1 => format!("/* {w} */"),
				2 => format!("/* {w}\n#endif\n**/\n"),
				3 => format!("/*/ {w} */"),
				4 => format!("/***/ /**/ /* {w}/{w} **/"),
				5 => format!("/* * / {w} */"),
				6 => format!("/*{w}*{w}/ {w}*\u{e4}/ \u{6f22}*/\n"),
				7 => format!("/* // {w} */ "),
				8 => format!("// /* {w}\n"),
				9 => format!("/* {w} *\n/ {w} *\r\n/ */"),
				10 => format!("/*\n * {w}\n *\n#define AA 1\n * \"{w} */"),
				_ => format!("/** {w} ***/\n\n"),
			}),
			Item::Include(k) => {
				let t = if k % 2 == 0 { format!("#include \"{}\"", names[*k]) } else { format!("#include <{}>", names[*k]) };
				line(out, &t, v)
			}
			Item::Missing => line(out, "#include \"none.p4\"", v),
			Item::Define(k, e) => {
				let mut t = format!("#define {} ", MACROS[*k]);
				let atom = matches!(e, Expr::Int(_) | Expr::Name(_));
				t.push_str(if atom { "" } else { "(" });
				render_expr(e, 0, v, &mut t);
				t.push_str(if atom { "" } else { ")" });
				line(out, &t, v)
			}
			Item::Undef(k) => line(out, &format!("#undef {}", MACROS[*k]), v),
			Item::Line(t) => line(out, t, v),
			Item::Number(k) => out.push_str(&format!("{} ", NUMBERS[*k])),
			Item::Once(k, b) => {
				let g = GUARDS[*k];
				line(out, &[format!("#ifndef {g}"), format!("#if !defined({g})"), format!("#if ! defined {g}")][v(3)], v);
				line(out, &format!("#define {g}"), v);
				render_items(b, names, v, out);
				line(out, "#endif", v);
			}
			Item::IfDef(yes, k, b, other) => {
				line(out, &format!("#if{}def {}", if *yes { "" } else { "n" }, MACROS[*k]), v);
				render_items(b, names, v, out);
				if let Some(b) = other {
					line(out, "#else", v);
					render_items(b, names, v, out);
				}
				line(out, "#endif", v);
			}
			Item::Cond(branches, other) => {
				render_branches(branches, other, names, v, out);
				line(out, "#endif", v);
			}
		}
	}
}

fn render_branches(branches: &[(Expr, Vec<Item>)], other: &Option<Vec<Item>>, names: &[String], v: &mut dyn FnMut(usize) -> usize, out: &mut String) {
	for (n, (c, b)) in branches.iter().enumerate() {
		let mut t = String::from(if n == 0 { "#if " } else { "#elif " });
		render_expr(c, 0, v, &mut t);
		line(out, &t, v);
		render_items(b, names, v, out);
	}
	if let Some(b) = other {
		line(out, "#else", v);
		render_items(b, names, v, out);
	}
}

#[derive(Default)]
struct Pp {
	seen: Vec<usize>,
	defs: BTreeMap<usize, Expr>,
	guards: Vec<usize>,
	words: Vec<String>,
}

impl Pp {
	/// The value of a condition. A name that is no macro, or one that is being expanded already, stands for 0.
	fn value(&self, e: &Expr, within: &mut Vec<usize>) -> i64 {
		match e {
			Expr::Int(n) => *n,
			Expr::Name(k) => match self.defs.get(k) {
				Some(d) if !within.contains(k) => {
					probe("macro expanded");
					within.push(*k);
					let r = self.value(d, within);
					within.pop();
					r
				}
				_ => 0,
			},
			Expr::Defined(k) => self.defs.contains_key(k) as i64,
			Expr::Not(e) => (self.value(e, within) == 0) as i64,
			Expr::Neg(e) => self.value(e, within).wrapping_neg(),
			Expr::Inv(e) => !self.value(e, within),
			Expr::Guarded(and, k, n) => match (and, self.value(&Expr::Name(*k), within)) {
				(true, d) => (d != 0 && n / d > 1) as i64,
				(false, d) => (d == 0 || n % d == 1) as i64,
			},
			Expr::Bin(op, l, r) => {
				let (l, r) = (self.value(l, within), self.value(r, within));
				match *op {
					"*" => l.wrapping_mul(r),
					"/" => l / r,
					"%" => l % r,
					"+" => l.wrapping_add(r),
					"-" => l.wrapping_sub(r),
					"<<" => l << r,
					">>" => l >> r,
					"<" => (l < r) as i64,
					"<=" => (l <= r) as i64,
					">" => (l > r) as i64,
					">=" => (l >= r) as i64,
					"==" => (l == r) as i64,
					"!=" => (l != r) as i64,
					"&" => l & r,
					"^" => l ^ r,
					"|" => l | r,
					"&&" => (l != 0 && r != 0) as i64,
					"||" => (l != 0 || r != 0) as i64,
					_ => unreachable!(),
				}
			}
		}
	}

	fn run(&mut self, items: &[Item], files: &[Option<Rc<File>>]) {
		for i in items {
			match i {
				Item::Word(w) => {
					if !self.words.contains(w) {
						self.words.push(w.clone())
					}
				}
				Item::Many(n) => {
					for k in 0..*n {
						let w = many(k);
						if !self.words.contains(&w) {
							self.words.push(w)
						}
					}
				}
				Item::Include(k) => {
					if !self.seen.contains(k) {
						if let Some(t) = &files[*k] {
							self.seen.push(*k);
							self.run(&t.items, files);
						}
					}
				}
				Item::Define(k, e) => {
					self.defs.insert(*k, e.clone());
				}
				Item::Undef(k) => {
					self.defs.remove(k);
				}
				Item::Comment(..) | Item::Missing | Item::Line(_) | Item::Number(_) => {}
				Item::Once(k, b) => {
					if !self.guards.contains(k) {
						self.guards.push(*k);
						self.run(b, files)
					} else {
						probe("guarded")
					}
				}
				Item::IfDef(yes, k, b, other) => {
					if self.defs.contains_key(k) == *yes {
						self.run(b, files)
					} else if let Some(b) = other {
						self.run(b, files)
					}
				}
				Item::Cond(branches, other) => self.branches(branches, other, files),
			}
		}
	}

	fn branches(&mut self, branches: &[(Expr, Vec<Item>)], other: &Option<Vec<Item>>, files: &[Option<Rc<File>>]) {
		match branches.iter().position(|(c, _)| self.value(c, &mut vec![]) != 0) {
			Some(k) => {
				probe(if k > 0 { "elif taken" } else { "if taken" });
				self.run(&branches[k].1, files)
			}
			None => {
				if let Some(b) = other {
					self.run(b, files)
				}
			}
		}
	}
}

/// The words of a file with those of the files that it includes in place, each of them once, and the files that were seen.
pub fn expand(root: usize, files: &[Option<Rc<File>>]) -> (Vec<String>, usize) {
	let mut p = Pp { seen: vec![root], ..Default::default() };
	p.run(&files[root].as_ref().unwrap().items, files);
	(p.words, p.seen.len())
}

/// The same for a draft that is none of the files.
pub fn expand_draft(f: &File, files: &[Option<Rc<File>>]) -> Vec<String> {
	let mut p = Pp::default();
	p.run(&f.items, files);
	if let Some((b, o)) = &f.open {
		p.branches(b, o, files)
	}
	p.words
}
