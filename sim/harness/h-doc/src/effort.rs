//! What an edit costs: how many tokens a match looks at again.
use analyzer_core::parser::{Cst, Parser, Rule};
use simrt::{chance, draw, draw_range, fail, note, probe};
use std::cell::Cell;
use std::rc::Rc;

thread_local!(static LOOKED: Cell<usize> = Cell::new(0));

#[derive(Clone, Debug)]
struct Tok(char);
impl PartialEq for Tok {
	fn eq(&self, o: &Tok) -> bool {
		LOOKED.with(|n| n.set(n.get() + 1));
		self.0 == o.0
	}
}

fn toks(s: &str) -> Vec<Tok> { s.chars().map(Tok).collect() }
fn count<T>(f: impl FnOnce() -> T) -> (T, usize) {
	LOOKED.with(|n| n.set(0));
	let r = f();
	(r, LOOKED.with(|n| n.get()))
}
fn shape(c: &Option<Cst<Tok>>) -> String { format!("{c:?}") }

/// A document of many short statements, most of which no edit concerns.
pub fn run() {
	probe("effort");
	let term = |s: &str| Rule::Terminal(Rc::new(toks(s)));
	let rules = [
		("start", Rule::Repetition("stmt")),
		("stmt", Rule::Choice(vec!["assign", "call"])),
		("assign", Rule::Sequence(vec!["name", "eq", "name", "semi"])),
		("call", Rule::Sequence(vec!["name", "args", "semi"])),
		("args", Rule::Repetition("arg")),
		("arg", Rule::Sequence(vec!["notsemi", "comma", "name"])),
		("notsemi", Rule::Not("semi")),
		("name", Rule::Choice(vec!["a", "b", "c"])),
		("a", term("a")),
		("b", term("b")),
		("c", term("c")),
		("eq", term("=")),
		("comma", term(",")),
		("semi", term(";")),
	];
	let name = || ["a", "b", "c"][draw(3)];
	let stmt = || {
		if chance(1, 2) {
			format!("{}={};", name(), name())
		} else {
			format!("{}{};", name(), (0..draw(3)).map(|_| format!(",{}", name())).collect::<String>())
		}
	};
	let n = [100, 300, 800][draw(3)];
	let mut t: Vec<String> = (0..n).map(|_| stmt()).collect();
	let Ok(f) = Parser::from_rules(&rules) else { fail("grammar-check", "refused a complete grammar".into()) };
	let mut p = f(toks(&t.concat()).into());
	let (r, first) = count(|| p._match());
	if r.is_none() {
		fail("wrong-parse", "a sequence of statements is not one".into());
	}
	note(format!("{n} statements, {first} tokens looked at"));
	for _ in 0..draw_range(1, 12) {
		simrt::op();
		// some statements are replaced by others
		let at = if chance(1, 4) { [0, t.len()][draw(2)] } else { draw(t.len() + 1) };
		let gone = draw(4).min(t.len() - at);
		let new: Vec<String> = (0..draw(4)).map(|_| stmt()).collect();
		let from = t[..at].concat().len();
		let (old_text, new_text) = (t[at..at + gone].concat(), new.concat());
		p.apply_edit(from..from + old_text.len(), &toks(&new_text));
		t.splice(at..at + gone, new);
		let (r, looked) = count(|| p._match());
		if r.is_none() {
			fail("stale-parse", format!("a sequence of statements is not one after {from}..{} := {new_text}", from + old_text.len()));
		}
		// what is new, a statement on either side, and what is tried at the end
		let limit = 15 * (new_text.len() + 30);
		if looked > limit {
			fail("not-incremental", format!("{looked} tokens were looked at again, of {} in {} statements, for an edit of {} tokens", t.concat().len(), t.len(), new_text.len()));
		}
		simrt::log(format!("{looked} of {limit} for {} tokens", new_text.len()));
		let (_, again) = count(|| p._match());
		if again > limit {
			fail("not-incremental", format!("{again} tokens were looked at again without an edit"));
		}
	}
	let Ok(f) = Parser::from_rules(&rules) else { return };
	if shape(&f(toks(&t.concat()).into())._match()) != shape(&p._match()) {
		fail("stale-parse", "the parse after some edits is not that of the text".into());
	}
}
