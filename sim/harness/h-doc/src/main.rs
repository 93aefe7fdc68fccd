//! C19: histories of edits of one document, parsed incrementally by the `Parser`.
mod effort;
mod grammar;
mod peg;

use analyzer_core::parser::{Cst, Parser, Rule};
use grammar::Grammar;
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, note, probe};
use std::collections::HashMap;

fn main() { harness_main(&[Prop { id: "C19", main: c19, max_steps: 100_000 }]) }

fn text(t: &[char]) -> String { t.iter().collect() }

/// What a `Parser` says, shortened.
fn show(r: &Option<Cst<char>>) -> String {
	let s = format!("{r:?}");
	s.chars().take(400).collect()
}

fn undefined_rules(g: &Grammar) {
	// a grammar is refused exactly when something in it is missing
	let mut rules: HashMap<&'static str, Rule<char>> = g.rules.iter().cloned().collect();
	let gone = g.rules[draw(g.rules.len())].0;
	rules.remove(gone);
	let refers = |r: &Rule<char>| match r {
		Rule::Terminal(_) => false,
		Rule::Choice(v) | Rule::Sequence(v) => v.contains(&gone),
		Rule::Repetition(r) | Rule::Not(r) => *r == gone,
	};
	let needed = gone == "start" || rules.values().any(refers);
	if Parser::from_rules(&rules).is_err() != needed {
		fail("grammar-check", format!("without '{gone}': refused instead of accepted, or the reverse: {}", g.describe()));
	}
}

/// What an editor does to a document: from any text towards any other one.
fn c19() {
	if chance(1, 60) {
		return effort::run();
	}
	let g = Grammar::any();
	note(format!("{} rules", g.rules.len()));
	if chance(1, 8) {
		undefined_rules(&g);
	}
	let mut max = [6, 10, 14][draw(3)];
	let mut gas = 30_000;
	if chance(1, 60) {
		probe("long document");
		max = [25, 40, 60][draw(3)];
		gas = 200_000;
	}
	let mut t = g.sentence(max);
	let rules: HashMap<_, _> = g.rules.iter().cloned().collect();
	let build = |t: &[char]| match Parser::from_rules(&rules) {
		Ok(f) => f(t.to_vec().into()),
		Err(e) => {
			fail("grammar-check", format!("refused a complete grammar: {e}: {}", g.describe()));
			panic!()
		}
	};
	let mut p = build(&t);
	let mut history = vec![format!("{:?}", text(&t))];
	let n = draw_range(1, [5, 15, 40][draw(3)]);
	let often = [1, 2, 4][draw(3)];
	let (mut matched, mut failed) = (0, 0);
	for k in 0..=n {
		if k > 0 {
			simrt::op();
			let (range, new) = edit(&g, &t, max);
			history.push(format!("{range:?} := {:?}", text(&new)));
			t.splice(range.clone(), new.iter().cloned());
			p.apply_edit(range, &new);
		}
		if k < n && !chance(1, often) {
			continue;
		}
		let Some(want) = peg::parse(&g, &t, gas) else {
			probe("too much work");
			return;
		};
		if want.is_some() {
			matched += 1
		} else {
			failed += 1
		}
		for _ in 0..draw_range(1, 2) {
			simrt::op();
			history.push("match".into());
			let got = p._match();
			if got != want {
				let fresh = build(&t)._match();
				let class = if fresh == want { "stale-parse" } else { "wrong-parse" };
				fail(class, format!("{:?} is {} instead of {} after {history:?} with {}", text(&t), show(&got), show(&want), g.describe()));
			}
		}
	}
	if matched > 0 && failed > 0 {
		probe("both matched and not");
	}
	if build(&t)._match() != p._match() {
		fail("stale-parse", format!("{:?} after {history:?} with {}", text(&t), g.describe()));
	}
	probe(&format!("{} parses", if matched > 3 { "many" } else { "few" }));
	simrt::log(format!("{history:?} {}", g.describe()));
}

fn edit(g: &Grammar, t: &[char], max: usize) -> (std::ops::Range<usize>, Vec<char>) {
	let (a, b) = {
		let (a, b) = (draw(t.len() + 1), draw(t.len() + 1));
		(a.min(b), a.max(b))
	};
	let room = max.saturating_sub(t.len());
	match draw(8) {
		// towards another sentence: what differs is replaced, or a little more than that
		0..=3 => {
			let new = g.sentence(max);
			let mut pre = t.iter().zip(&new).take_while(|(x, y)| x == y).count();
			let mut post = t[pre..].iter().rev().zip(new[pre..].iter().rev()).take_while(|(x, y)| x == y).count();
			if chance(1, 4) {
				pre = draw(pre + 1);
				post = draw(post + 1);
			}
			(pre..t.len() - post, new[pre..new.len() - post].to_vec())
		}
		4 => (a..a, g.tokens(room.min(3))),
		5 => (a..b, vec![]),
		6 => (a..(a + 1).min(t.len()), g.tokens(1)),
		_ => (a..b, g.tokens((b - a + room).min(4))),
	}
}
