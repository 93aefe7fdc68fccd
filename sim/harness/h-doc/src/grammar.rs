//! Grammars and texts of them.
use analyzer_core::parser::Rule;
use simrt::{chance, draw, draw_range, probe};
use std::rc::Rc;

pub struct Grammar {
	pub rules: Vec<(&'static str, Rule<char>)>,
	alphabet: Vec<char>,
}

const NAMES: [&str; 14] = ["start", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"];

fn term(s: &str) -> Rule<char> { Rule::Terminal(Rc::new(s.chars().collect())) }

/// Grammars as people write them: of expressions, of statements, of lists, with what must not follow.
fn familiar() -> Vec<(&'static str, Rule<char>)> {
	use Rule::*;
	match draw(5) {
		0 if chance(1, 4) => {
			// the notation of the crate for grammars says what it seems to say
			let end = Rc::new(vec!['0', '0']);
			#[allow(unused_imports)]
			use analyzer_core::{parser::*, *};
			let written = grammar! {
				start => add | sub | num;
				add => num, plus, start;
				sub => num, minus, start;
				plus => "+";
				minus => "-";
				num => digit, digits;
				digits => digit rep;
				digit => zero | one;
				zero => "0";
				one => "1";
				ten => "10\u{e9}";
				pair => zero, one;
				any => one rep;
				end => (end)
			};
			let want = vec![
				("start", Choice(vec!["add", "sub", "num"])),
				("add", Sequence(vec!["num", "plus", "start"])),
				("sub", Sequence(vec!["num", "minus", "start"])),
				("plus", term("+")),
				("minus", term("-")),
				("num", Sequence(vec!["digit", "digits"])),
				("digits", Repetition("digit")),
				("digit", Choice(vec!["zero", "one"])),
				("zero", term("0")),
				("one", term("1")),
				("ten", term("10\u{e9}")),
				("pair", Sequence(vec!["zero", "one"])),
				("any", Repetition("one")),
				("end", term("00")),
			];
			if format!("{written:?}") != format!("{want:?}") {
				simrt::fail("grammar-notation", format!("{written:?} instead of {want:?}"));
			}
			simrt::probe("written grammar");
			want
		}
		0 => vec![
			("start", Choice(vec!["add", "sub", "num"])),
			("add", Sequence(vec!["num", "plus", "start"])),
			("sub", Sequence(vec!["num", "minus", "start"])),
			("plus", term("+")),
			("minus", term("-")),
			("num", Sequence(vec!["digit", "digits"])),
			("digits", Repetition("digit")),
			("digit", Choice(vec!["zero", "one"])),
			("zero", term("0")),
			("one", term("1")),
		],
		1 => vec![
			("start", Repetition("stmt")),
			("stmt", Choice(vec!["if_else", "if", "block", "simple"])),
			("if_else", Sequence(vec!["if", "else", "stmt"])),
			("if", Sequence(vec!["kif", "stmt"])),
			("kif", term("i")),
			("else", term("e")),
			("block", Sequence(vec!["open", "start", "close"])),
			("open", term("{")),
			("close", term("}")),
			("simple", term("s;")),
		],
		2 => vec![
			// a^n b^n c^n
			("start", Sequence(vec!["ahead", "as", "bc", "end"])),
			("ahead", Not("nab")),
			("nab", Not("abc")),
			("abc", Sequence(vec!["ab", "c"])),
			("ab", Choice(vec!["ab2", "ab1"])),
			("ab2", Sequence(vec!["a", "ab", "b"])),
			("ab1", term("ab")),
			("as", Sequence(vec!["a", "ar"])),
			("ar", Repetition("a")),
			("bc", Choice(vec!["bc2", "bc1"])),
			("bc2", Sequence(vec!["b", "bc", "c"])),
			("bc1", term("bc")),
			("a", term("a")),
			("b", term("b")),
			("c", term("c")),
			("end", Not("any")),
			("any", Choice(vec!["a", "b", "c"])),
		],
		3 => vec![
			// keywords are not names, comments end with the line
			("start", Sequence(vec!["sp", "items"])),
			("items", Repetition("item")),
			("item", Sequence(vec!["token", "sp"])),
			("token", Choice(vec!["keyword", "name"])),
			("keyword", Sequence(vec!["kw", "not_letter"])),
			("kw", term("if")),
			("not_letter", Not("letter")),
			("name", Sequence(vec!["letter", "letters"])),
			("letters", Repetition("letter")),
			("letter", Choice(vec!["li", "lf"])),
			("li", term("i")),
			("lf", term("f")),
			("sp", Repetition("space")),
			("space", Choice(vec!["blank", "comment"])),
			("blank", term(" ")),
			("comment", Sequence(vec!["slashes", "rest", "newline"])),
			("slashes", term("//")),
			("rest", Repetition("other")),
			("other", Choice(vec!["letter", "blank"])),
			("newline", term("\n")),
		],
		_ => vec![
			// a list with an optional end
			("start", Sequence(vec!["list", "tail"])),
			("list", Choice(vec!["more", "one", "none"])),
			("more", Sequence(vec!["one", "comma", "list"])),
			("one", term("x")),
			("comma", term(",")),
			("none", term("")),
			("tail", Choice(vec!["semi", "none"])),
			("semi", term(";")),
		],
	}
}

impl Grammar {
	pub fn any() -> Self {
		if chance(1, 3) {
			let rules = familiar();
			let mut alphabet: Vec<char> = rules.iter().flat_map(|(_, r)| if let Rule::Terminal(v) = r { v.to_vec() } else { vec![] }).collect();
			alphabet.sort();
			alphabet.dedup();
			probe("familiar grammar");
			return Self { rules, alphabet };
		}
		loop {
			let g = Self::random();
			if g.sound() {
				return g;
			}
		}
	}

	fn random() -> Self {
		let alphabet: Vec<char> = "abc"[..draw_range(1, 3)].chars().collect();
		let n = draw_range(2, [4, 8, NAMES.len()][draw(3)]);
		let empty = chance(1, 3);
		let rules = (0..n)
			.map(|k| {
				// mostly to what follows, so that recursion is the exception
				let any = || NAMES[if k + 1 < n && !chance(1, 6) { draw_range(k + 1, n - 1) } else { draw(n) }];
				let some = |min: usize| (0..draw_range(min, 3)).map(|_| any()).collect::<Vec<_>>();
				let terminal = || {
					let len = if empty && chance(1, 4) { 0 } else { [1, 1, 1, 2, 3][draw(5)] };
					Rule::Terminal(Rc::new((0..len).map(|_| alphabet[draw(alphabet.len())]).collect()))
				};
				let r = if k * 2 >= n && chance(2, 3) {
					terminal()
				} else {
					match draw(10) {
						0 => terminal(),
						1..=3 => Rule::Choice(some(if empty { 0 } else { 1 })),
						4..=6 => Rule::Sequence(some(if empty { 0 } else { 1 })),
						7 | 8 => Rule::Repetition(any()),
						_ => Rule::Not(any()),
					}
				};
				(NAMES[k], r)
			})
			.collect();
		Self { rules, alphabet }
	}

	pub fn rule(&self, name: &str) -> &Rule<char> { &self.rules.iter().find(|(k, _)| *k == name).unwrap().1 }

	fn index(&self, name: &str) -> usize { self.rules.iter().position(|(k, _)| *k == name).unwrap() }

	/// Every parse comes to an end: no rule begins with itself, and nothing empty is repeated.
	fn sound(&self) -> bool {
		let n = self.rules.len();
		let mut nullable = vec![false; n];
		loop {
			let before = nullable.clone();
			for k in 0..n {
				nullable[k] = match &self.rules[k].1 {
					Rule::Terminal(v) => v.is_empty(),
					Rule::Choice(of) => of.iter().any(|o| before[self.index(o)]),
					Rule::Sequence(of) => of.iter().all(|o| before[self.index(o)]),
					Rule::Repetition(_) | Rule::Not(_) => true,
				};
			}
			if nullable == before {
				break;
			}
		}
		let mut first = vec![vec![false; n]; n];
		for k in 0..n {
			let begins: Vec<&str> = match &self.rules[k].1 {
				Rule::Terminal(_) => vec![],
				Rule::Choice(of) => of.clone(),
				Rule::Sequence(of) => {
					let upto = of.iter().position(|o| !nullable[self.index(o)]).map_or(of.len(), |p| p + 1);
					of[..upto].to_vec()
				}
				Rule::Repetition(o) => {
					if nullable[self.index(o)] {
						return false;
					}
					vec![o]
				}
				Rule::Not(o) => vec![o],
			};
			for o in begins {
				first[k][self.index(o)] = true;
			}
		}
		for m in 0..n {
			for a in 0..n {
				for b in 0..n {
					first[a][b] |= first[a][m] && first[m][b];
				}
			}
		}
		(0..n).all(|k| !first[k][k])
	}

	pub fn tokens(&self, max: usize) -> Vec<char> {
		(0..draw(max + 1)).map(|_| if chance(1, 20) { '?' } else { self.alphabet[draw(self.alphabet.len())] }).collect()
	}

	/// Something that looks like the grammar.
	pub fn sentence(&self, max: usize) -> Vec<char> {
		let mut out = vec![];
		let mut fuel = 60;
		self.derive("start", &mut out, max, &mut fuel);
		if chance(1, 6) {
			let k = draw(out.len() + 1);
			out.splice(k..(k + draw(2)).min(out.len()), self.tokens(2));
		}
		out.truncate(max);
		out
	}

	fn derive(&self, name: &str, out: &mut Vec<char>, max: usize, fuel: &mut usize) {
		if *fuel == 0 || out.len() > max {
			return;
		}
		*fuel -= 1;
		match self.rule(name) {
			Rule::Terminal(v) => out.extend(v.iter()),
			Rule::Choice(of) if of.is_empty() => {}
			// when it gets late, what is last, which tends to be short
			Rule::Choice(of) => self.derive(if *fuel < 30 { of[of.len() - 1] } else { of[draw(of.len())] }, out, max, fuel),
			Rule::Sequence(of) => of.iter().for_each(|o| self.derive(o, out, max, fuel)),
			Rule::Repetition(o) => (0..draw(4)).for_each(|_| self.derive(o, out, max, fuel)),
			Rule::Not(_) => {}
		}
	}

	pub fn describe(&self) -> String {
		let d = |r: &Rule<char>| match r {
			Rule::Terminal(v) => format!("{:?}", v.iter().collect::<String>()),
			Rule::Choice(v) => format!("({})", v.join(" | ")),
			Rule::Sequence(v) => format!("({})", v.join(", ")),
			Rule::Repetition(r) => format!("{r} rep"),
			Rule::Not(r) => format!("not {r}"),
		};
		self.rules.iter().map(|(k, r)| format!("{k} => {}", d(r))).collect::<Vec<_>>().join("; ")
	}
}
