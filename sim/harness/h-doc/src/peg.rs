//! What a parsing expression grammar means, without anything remembered between one step and the next.
use crate::grammar::Grammar;
use analyzer_core::parser::{Cst, Rule};
use std::rc::Rc;

struct TooMuch;

/// The tree of the whole text if there is one; nothing if that takes too much work to say.
pub fn parse(g: &Grammar, t: &[char], work: usize) -> Option<Option<Cst<char>>> {
	let mut left = work;
	match eval(g, "start", t, 0, &mut left) {
		Ok(Some((c, end))) if end == t.len() => Some(Some((*c).clone())),
		Ok(_) => Some(None),
		Err(TooMuch) => None,
	}
}

fn eval(g: &Grammar, name: &'static str, t: &[char], at: usize, left: &mut usize) -> Result<Option<(Rc<Cst<char>>, usize)>, TooMuch> {
	if *left == 0 {
		return Err(TooMuch);
	}
	*left -= 1;
	Ok(match g.rule(name) {
		Rule::Terminal(v) => t[at..].starts_with(v).then(|| (Cst::Terminal(v.clone()).into(), at + v.len())),
		Rule::Choice(of) => {
			let mut r = None;
			for o in of {
				if let Some((c, e)) = eval(g, o, t, at, left)? {
					r = Some((Cst::Choice(o, c).into(), e));
					break;
				}
			}
			r
		}
		Rule::Sequence(of) => {
			let (mut cs, mut e) = (vec![], at);
			for o in of {
				match eval(g, o, t, e, left)? {
					Some((c, next)) => {
						cs.push(c);
						e = next;
					}
					None => return Ok(None),
				}
			}
			Some((Cst::Sequence(cs).into(), e))
		}
		Rule::Repetition(o) => {
			let (mut cs, mut e) = (vec![], at);
			while let Some((c, next)) = eval(g, o, t, e, left)? {
				cs.push(c);
				e = next;
			}
			Some((Cst::Repetition(cs).into(), e))
		}
		Rule::Not(o) => match eval(g, o, t, at, left)? {
			Some(_) => None,
			None => Some((Cst::Not(o).into(), at)),
		},
	})
}
