//! C06-C11, C14, C15, C17: the whole analyzer host (protocol machine, request manager, work pool, workspaces, analyzer) with a
//! simulated client and a simulated disk.
mod client;
mod lspfile;
mod pp;
mod text;

use client::*;
use serde_json::{json, Value};
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, fault_pick, log, note, probe};
use simstd::simdisk::{self, DiskFaults};
use simstd::thread;
use std::collections::{BTreeMap, BTreeSet};
use text::*;

fn main() {
	harness_main(&[
		Prop { id: "C06", main: c06, max_steps: 400_000 },
		Prop { id: "C07", main: c07, max_steps: 400_000 },
		Prop { id: "C08", main: c08, max_steps: 400_000 },
		Prop { id: "C09", main: c09, max_steps: 600_000 },
		Prop { id: "C10", main: c10, max_steps: 600_000 },
		Prop { id: "C11", main: c11, max_steps: 400_000 },
		Prop { id: "C14", main: c14, max_steps: 400_000 },
		Prop { id: "C15", main: c15, max_steps: 400_000 },
		Prop { id: "C17", main: c17, max_steps: 600_000 },
	]);
}

const PLAIN: Style = Style { crlf: false, wide: false, astral: false, cr: false };

fn slow_disk() {
	if chance(1, 2) {
		simdisk::disk().set_faults(DiskFaults { slow: 2, slow_ms: [5, 500][draw(2)], ..Default::default() });
	}
}

fn slow_policy(fs: FsMode) -> Policy {
	if fs == FsMode::Client {
		Policy::slow()
	} else {
		Policy::good()
	}
}

fn put(uri: &str, text: &str) { simdisk::disk().put(&url_path(uri).unwrap(), text.as_bytes()) }
fn del(uri: &str) { simdisk::disk().del(&url_path(uri).unwrap()) }

fn open_opts(fs: FsMode) -> Opts { Opts { fs, policy: slow_policy(fs), tracing: false, bound: 0 } }

/// Now and then, a run is of another scale than the usual one.
fn large(what: &str, steps: u64) -> bool {
	let y = chance(1, 150);
	if y {
		probe(what);
		simrt::more_steps(steps);
	}
	y
}

/// A word for each number, of letters only.
fn numbered(mut k: usize) -> String {
	let mut w = String::from("n");
	while k > 0 {
		w.push(['q', 'x', 'z', 'j', 'k', 'v'][k % 6]);
		k /= 6;
	}
	w
}

/// Client requests sent by the server are matched with their answers.
fn c06() {
	let n = draw_range(1, 6);
	let two = chance(1, 2);
	let folders: Vec<(&str, &str)> = if two { vec![("file:///w/", "w"), ("file:///v/", "v")] } else { vec![("file:///w/", "w")] };
	let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
	for i in 0..n {
		let u = format!("file:///{}/f{i}.p4", if two && i % 2 == 1 { "v" } else { "w" });
		// words that no other file has
		let ws: Vec<String> = (0..draw_range(1, 3)).map(|k| format!("{}{}", ["qq", "zz", "jj", "kk", "vv", "xx"][i], "q".repeat(k + 1))).collect();
		put(&u, &ws.join(" "));
		want.insert(u, ws);
	}
	// a few requests at once, or hundreds
	let many = if large("many requests", 8_000_000) { draw_range(60, 500) } else { 0 };
	for i in 0..many {
		let u = format!("file:///w/m/{i}.p4");
		put(&u, &numbered(i));
		want.insert(u, vec![numbered(i)]);
	}
	let policy = Policy {
		max_delay_ms: [0, 3, 50, 5000][draw(4)],
		error: [0, 6][draw(2)],
		duplicate: [0, 3][draw(2)],
		unknown: [0, 3][draw(2)],
		bad_type: [0, 8][draw(2)],
		refuse_progress: chance(1, 6),
		refuse_register: false,
		never: 0,
	};
	note(format!("client file system, {n} files, {policy:?}"));
	let mut s = Sess::start(Opts { fs: FsMode::Client, policy, tracing: false, bound: [0, 1, 4][draw(3)] });
	s.class = "wrong-answer-used";
	s.initialize(Some(&folders), chance(1, 2), None);
	let mut files: Vec<String> = want.keys().cloned().collect();
	// files outside of the folders are requested on their own
	if chance(1, 2) {
		let u = "file:///o/out.p4".to_string();
		put(&u, "oq oz");
		want.insert(u.clone(), vec!["oq".into(), "oz".into()]);
		files.push(u);
	}
	let mut asked = vec![];
	for _ in 0..if many > 0 { draw_range(10, 80) } else { draw_range(1, 8) } {
		let u = files[draw(files.len())].clone();
		// a file whose contents (or whose folder) could not be had is an error, never the contents of another
		s.completion(&u, Exp::OneOf(vec![Exp::Labels(want[&u].clone()), Exp::Err(-32603)]));
		asked.push(u);
		if chance(1, 3) {
			s.sync();
		}
	}
	s.sync();
	// exactly those with a failed answer are errors
	{
		let st = s.sh.st.lock().unwrap();
		for (k, u) in asked.iter().enumerate() {
			let r = &st.responses[k + 1].1;
			let failed = st.requests.iter().any(|q| q.fate == "failed" && q.params["uri"] == json!(u));
			let ok = st.requests.iter().any(|q| q.fate == "answered" && q.method == "p4analyzer/fileContents" && q.params["uri"] == json!(u));
			let r = r.clone();
			if r.get("error").is_some() && !failed {
				drop(st);
				fail("answer-lost", format!("{u} could be read, but {}", brief(&r)));
			}
			if r.get("error").is_none() && !ok {
				drop(st);
				fail("wrong-answer-used", format!("{u} could not be read, but {}", brief(&r)));
			}
		}
		if st.requests.iter().any(|q| !q.id.is_i64()) {
			drop(st);
			fail("request-id-reused", "a request without a numeric id".into());
		}
	}
	s.finish();
}

fn condition(depth: usize) -> String {
	if depth == 0 || chance(1, 3) {
		return ["1", "A", "B", "0", "2", "64", "70", "9223372036854775807", "defined(A)", "defined B", "x"][draw(11)].to_string();
	}
	match draw(8) {
		0 => format!("({})", condition(depth - 1)),
		1 => format!("!{}", condition(depth - 1)),
		_ => {
			let op = ["+", "-", "*", "/", "%", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^"][draw(18)];
			let sp = ["", " "][draw(2)];
			format!("{}{sp}{op}{sp}{}", condition(depth - 1), condition(depth - 1))
		}
	}
}

/// A condition that nobody writes, of a size that nobody has the stack or the time for.
fn too_deep() -> String {
	let n = [60, 120, 500, 3000, 30_000, 300_000][draw(6)];
	probe("too deep");
	let few = n.min(30_000);
	let cond = match draw(7) {
		0 => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
		1 => "(".repeat(n),
		2 => format!("{}1", ["!", "-", "~", "+", "! "][draw(5)].repeat(n)),
		3 => format!("1{}", ["+1", " || A", " && !(A)", " << 1"][draw(4)].repeat(few)),
		4 => {
			// each macro is two of the next
			let m: String = (0..n.min(120)).map(|k| format!("#define D{k} D{} {} D{}\n", k + 1, ["+", "||", "| !"][draw(3)], k + 1)).collect();
			return format!("{m}#if D0\nqa\n#else\nzq\n#endif\n");
		}
		5 => {
			let m: String = (0..few).map(|k| format!("#define D{k} D{}\n", k + 1)).collect();
			return format!("{m}#if D0\nqa\n#else\nzq\n#endif\n");
		}
		_ => {
			let more = "+1".repeat(n.min(240));
			let m: String = (0..n.min(600)).map(|k| format!("#define D{k} D{}{more}\n", k + 1)).collect();
			return format!("{m}#if D0\nqa\n#else\nzq\n#endif\n");
		}
	};
	format!("#{} {cond}\nqa\n#endif\n", ["if", "if", "if 0\n#elif"][draw(3)])
}

fn hostile_text() -> String {
	let bits = [
		"#if", "#elif", "#else", "#endif", "#define", "#undef", "#pragma", "#include \"a.p4\"", "#include <b.p4>", "#foo", "#", "\n", "\\\n",
		"\\", " A", " B", " 1", " (", ")", " + ", " / 0", " << 99", " defined(A)", " && ", "/*", "*/", "//", "\"", "8w255", "99999999999w1",
		"0x", "7s", "0b12", "9223372036854775807", " * ", " - ", "header h { bit<8> f; }", "é", "😀", "\u{0}", "\r", "{", "}", " A A", " >> 70", " % 0",
	];
	let mut s = String::new();
	if chance(1, 40) {
		return too_deep();
	}
	if chance(1, 2) {
		// directives that are nearly right
		for _ in 0..draw_range(1, 6) {
			let e = condition(3);
			s.push_str(&match draw(12) {
				0..=3 => format!("#if {e}\n"),
				4 => format!("#elif {e}\n"),
				5 | 6 => format!("#define {} {e}\n", ["A", "B"][draw(2)]),
				7 => format!("#undef {}\n", ["A", "B"][draw(2)]),
				8 => "#else\n".into(),
				9 => "#endif\n".into(),
				10 => format!("#include \"{}\"\n", ["a.p4", "b.p4", "../x.p4", "/w/c.p4", "none.p4", "http://h/y", ""][draw(7)]),
				_ => "qa zq\n".into(),
			});
		}
		return s;
	}
	for _ in 0..draw(14) {
		s.push_str(bits[draw(bits.len())]);
	}
	s
}

/// Every request gets exactly one response, in order, whatever is asked.
fn c07() {
	let fs = any_fs();
	slow_disk();
	let folders: &[(&str, &str)] = &[("file:///w/", "w")];
	let with_folders = chance(2, 3);
	for i in 0..draw(4) {
		put(&format!("file:///w/{}.p4", ["a", "b", "c", "d"][i]), &hostile_text());
	}
	let mut policy = slow_policy(fs);
	if fs == FsMode::Client {
		policy.error = [0, 5][draw(2)];
		policy.bad_type = [0, 5][draw(2)];
		policy.duplicate = [0, 5][draw(2)];
	} else {
		simdisk::disk().set_faults(DiskFaults { slow: 3, slow_ms: 50, read_error: [0, 4][draw(2)], torn_read: [0, 4][draw(2)], dir_error: [0, 5][draw(2)], ..Default::default() });
	}
	let mut s = Sess::start(Opts { fs, policy, tracing: chance(1, 3), bound: [0, 1, 4][draw(3)] });
	s.initialize(with_folders.then(|| folders), chance(1, 2), [None, Some("verbose"), Some("messages")][draw(3)]);
	let n = if large("many operations", 8_000_000) { draw_range(60, 300) } else { draw_range(1, 14) };
	note(format!("{n} operations, {fs:?}"));
	let uris = ["file:///w/a.p4", "file:///w/b.p4", "file:///w/c.p4", "file:///o/d.p4", "untitled:Untitled-1", "file:///w/a%20b.p4", "http://h/x.p4", "file:///w/", "data:,x", "file://host/share/x.p4", "file:///w/%FF%00.p4", "file:///w/a.p4?q#f", "mailto:a@b"];
	let far = |n: usize| if chance(1, 8) { [65_536u64, 2_147_483_647, 4_294_967_295][draw(3)] } else { draw(n) as u64 };
	for _ in 0..n {
		let u = uris[draw(uris.len())];
		match draw(18) {
			0..=2 => s.completion(u, Exp::OneOf(vec![Exp::Any])),
			3 => {
				let (l, c) = (far(100), far(100));
				s.request("textDocument/hover", json!({"textDocument": {"uri": u}, "position": {"line": l, "character": c}}), Exp::Hover(l, c));
			}
			4 if chance(1, 3) => {
				// the names of notifications are none of requests
				probe("request for a notification");
				let m = ["textDocument/didOpen", "textDocument/didClose", "initialized", "$/setTrace", "exit", "workspace/didChangeWatchedFiles", "textDocument/didSave", "$/cancelRequest"][draw(8)];
				s.request(m, [Value::Null, json!({}), json!({"textDocument": {"uri": u}}), json!({"value": "off"}), json!({"changes": []})][draw(5)].clone(), Exp::Err(-32603));
			}
			4 => s.request(["no/such", "textDocument/definition", "$/ext", ""][draw(4)], [Value::Null, json!({}), json!([1]), json!({"x": 1})][draw(4)].clone(), Exp::Err(-32603)),
			5 => s.request("initialize", init_params(None, true, false, None), Exp::Err(-32603)),
			6 => {
				let bad = [Value::Null, json!({}), json!([]), json!({"textDocument": {"uri": "::"}, "position": {"line": 0, "character": 0}}), json!({"textDocument": {"uri": u}, "position": {"line": -1, "character": 0}}), json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 1e30}}), json!({"textDocument": {"uri": u}})][draw(7)].clone();
				probe("malformed request");
				s.request(["textDocument/completion", "textDocument/hover"][draw(2)], bad, Exp::Err(-32602));
			}
			7 => s.open(u, &hostile_text()),
			8 => {
				let cs: Vec<Value> = (0..draw(3))
					.map(|_| {
						let mut c = json!({ "text": hostile_text() });
						if chance(2, 3) {
							c["range"] = json!({"start": {"line": far(5), "character": far(9)}, "end": {"line": far(5), "character": far(9)}});
						}
						c
					})
					.collect();
				s.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": cs}));
			}
			9 => s.close(u),
			10 => {
				let mut p = json!({"textDocument": {"uri": u}});
				if chance(1, 2) {
					p["text"] = json!(hostile_text());
				}
				s.notify("textDocument/didSave", p);
			}
			11 => {
				let cs: Vec<Value> = (0..draw(4)).map(|_| json!({"uri": uris[draw(uris.len())], "type": if chance(1, 8) { [0, 4, 77, -1][draw(4)] } else { draw_range(1, 3) as i64 }})).collect();
				s.notify("workspace/didChangeWatchedFiles", json!({ "changes": cs }));
			}
			12 => s.notify("$/setTrace", json!({"value": (["off", "messages", "verbose"][draw(3) as usize])})).then(|| ()).unwrap_or(()),
			13 => {
				// notifications nobody knows or that are malformed have no effect
				let m = ["$/cancelRequest", "textDocument/didOpen", "textDocument/didChange", "no/such", "initialized", "textDocument/didClose", "workspace/didChangeWatchedFiles", "$/setTrace", "shutdown", "initialize", "textDocument/hover", "textDocument/completion"][draw(12)];
				probe("malformed notification");
				s.notify(m, [Value::Null, json!([]), json!({"x": 1}), json!({"textDocument": {}}), json!({"value": "loud"}), json!("text")][draw(6)].clone());
			}
			14 => s.notify("$/progress", json!({"token": 1, "value": {}})).then(|| ()).unwrap_or(()),
			15 => {
				// responses nobody waits for
				s.send(json!({"id": ([json!(7_000_000), json!("x")][draw(2) as usize]), "result": null}));
				probe("stray response");
			}
			16 => s.sleep(draw(100) as u64),
			_ => s.sync(),
		}
	}
	s.finish();
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
	Uninit,
	Initializing,
	Active,
	ShuttingDown,
}

/// The lifecycle of the protocol.
fn c08() {
	let fs = any_fs();
	let mut policy = slow_policy(fs);
	policy.refuse_register = chance(1, 5);
	policy.refuse_progress = chance(1, 5);
	put("file:///w/a.p4", "qa");
	let mut s = Sess::start(Opts { fs, policy, tracing: false, bound: [0, 1][draw(2)] });
	s.class = "lifecycle";
	let mut st = Life::Uninit;
	let mut folders = false;
	let mut opened: Option<String> = None;
	let n = draw_range(2, 18);
	note(format!("{n} lifecycle messages, {policy:?}"));
	for _ in 0..n {
		match draw(13) {
			0 | 1 => {
				let f = chance(1, 2);
				let watched = chance(3, 4);
				let p = init_params(f.then(|| &[("file:///w/", "w")][..]), watched, chance(1, 2), None);
				let e = match st {
					Life::Uninit if f && !watched => Exp::Err(-32603),
					Life::Uninit => {
						folders = f;
						st = Life::Initializing;
						Exp::Init(f)
					}
					Life::Initializing => Exp::Err(-32002),
					Life::Active => Exp::Err(-32603),
					Life::ShuttingDown => Exp::Err(-32600),
				};
				s.request("initialize", p, e);
			}
			2 => {
				let e = match st {
					Life::Uninit => Exp::Err(-32602),
					Life::Initializing => Exp::Err(-32002),
					Life::Active => Exp::Err(-32603),
					Life::ShuttingDown => Exp::Err(-32600),
				};
				s.request("initialize", [json!({"capabilities": 5}), json!([1]), Value::Null][draw(3)].clone(), e);
			}
			3 | 4 => {
				s.notify("initialized", json!({}));
				if st == Life::Initializing && !(folders && policy.refuse_register) {
					st = Life::Active;
				}
			}
			5 => {
				let (m, p) = [
					("textDocument/hover", json!({"textDocument": {"uri": "file:///w/a.p4"}, "position": {"line": 3, "character": 4}})),
					("textDocument/completion", json!({"textDocument": {"uri": "file:///w/none.p4"}, "position": {"line": 3, "character": 4}})),
					("no/such", json!({})),
				][draw(3)]
				.clone();
				let e = match st {
					Life::Uninit | Life::Initializing => Exp::Err(-32002),
					Life::ShuttingDown => Exp::Err(-32600),
					Life::Active if m == "textDocument/hover" => Exp::Hover(3, 4),
					Life::Active => Exp::Err(-32603),
				};
				s.request(m, p, e);
			}
			6 => {
				let e = match st {
					Life::Uninit | Life::Initializing => Exp::Err(-32002),
					Life::ShuttingDown => Exp::Err(-32600),
					Life::Active => {
						if chance(1, 2) {
							st = Life::ShuttingDown;
							Exp::Null
						} else {
							continue;
						}
					}
				};
				s.request("shutdown", Value::Null, e);
			}
			7 | 8 => {
				// documents are only taken in when active
				let t = word();
				s.open("file:///w/doc.p4", &t);
				if st == Life::Active {
					opened = Some(t);
				}
			}
			9 | 10 => {
				let e = match st {
					Life::Uninit | Life::Initializing => Exp::Err(-32002),
					Life::ShuttingDown => Exp::Err(-32600),
					Life::Active => match &opened {
						Some(t) => Exp::Labels(words(t)),
						None => Exp::Err(-32603),
					},
				};
				s.completion("file:///w/doc.p4", e);
			}
			11 => s.sync(),
			_ => s.sleep(draw(50) as u64),
		}
		if st == Life::Uninit {
			s.sync();
			if !s.sh.st.lock().unwrap().requests.is_empty() {
				fail("lifecycle", "a request to the client before the server was initialized".into());
			}
		}
	}
	probe(&format!("ended {st:?}"));
	s.sync();
	s.notify("exit", Value::Null);
	// nothing after 'exit' is processed
	for k in 0..draw(3) {
		let id = json!(1000 + k);
		let m = [json!({"id": id, "method": "shutdown"}), json!({"id": id, "method": "initialize", "params": init_params(None, true, false, None)}), json!({"method": "exit"})][draw(3)].clone();
		let _ = s.send(m);
	}
	if s.await_stop().is_err() {
		fail("wrong-result", "the host reports a cancellation after 'exit'".into());
	}
	s.check();
	if s.sh.st.lock().unwrap().responses.len() != s.expected.len() {
		fail("lifecycle", "a response after 'exit'".into());
	}
}

/// What the editor and the server hold for each document is the same text.
fn c09() {
	let fs = any_fs();
	slow_disk();
	if chance(1, 3) {
		return lspfile::run();
	}
	let astral = chance(1, 40);
	let cr = !astral && chance(1, 40);
	let st = Style { crlf: !astral && !cr && chance(1, 4), wide: chance(1, 2), astral, cr };
	let with_folders = chance(2, 3);
	let uris = ["file:///w/a.p4", "file:///w/b.p4", "file:///w/sub/c.p4", "file:///o/d.p4", "untitled:Untitled-1", "file:///w/e%20f.p4"];
	for u in uris {
		if u.starts_with("file:") && chance(1, 3) {
			put(u, &text(PLAIN, 6));
		}
	}
	let mut s = Sess::start(Opts { tracing: chance(1, 6), ..open_opts(fs) });
	s.class = "text-mismatch";
	// two defects that are known: what the server is expected to hold on account of them tells them from others
	let known = if astral { "text-mismatch-utf16" } else { "text-mismatch-cr" };
	let exp = |d: &(String, String)| {
		if astral || cr {
			Exp::Known(words(&d.0), words(&d.1), known)
		} else {
			Exp::Labels(words(&d.0))
		}
	};
	let fold: &[(&str, &str)] = [&[("file:///w/", "w")][..], &[("file:///w", "w")][..], &[("file:///w/", "w"), ("file:///o/", "o")][..], &[][..]][draw(4)];
	s.initialize(with_folders.then(|| fold), chance(1, 3), None);
	let mut docs: BTreeMap<&str, (String, String)> = BTreeMap::new();
	let n = draw_range(2, [10, 25, 60][draw(3)]);
	let big = large("large documents", 6_000_000);
	note(format!("{n} editor operations, {fs:?}, {st:?}"));
	let few = draw_range(1, uris.len());
	for _ in 0..n {
		let u = uris[draw(few)];
		match draw(14) {
			0..=6 => {
				if let Some((t, t2)) = docs.get_mut(u) {
					let k = if chance(1, 40) { draw_range(10, 90) } else { [1, 1, 1, 2, 3, 5][draw(6)] };
					let mut cs = vec![];
					for _ in 0..k {
						let c = change(t, st);
						// how long the range is may be said as well
						let length = c.range.filter(|_| chance(1, 4)).map(|(a, b)| {
							let (a, b) = (offset(t, a), offset(t, b));
							t[a.min(b)..a.max(b)].encode_utf16().count()
						});
						LSP.apply(t, &c);
						SERVER.apply(t2, &c);
						let mut v = json!({ "text": c.text });
						if let Some((a, b)) = c.range {
							v["range"] = json!({"start": {"line": a.line, "character": a.ch}, "end": {"line": b.line, "character": b.ch}});
						}
						if let Some(n) = length {
							v["rangeLength"] = json!(n);
						}
						cs.push(v);
					}
					s.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": cs}));
				} else {
					let mut t = text(st, if big { [500, 6000, 30_000][draw(3)] } else { 16 });
					if chance(1, 12) {
						// lines far longer than usual, or far more of them
						let sep = [" ", ";", if st.crlf { "\r\n" } else { "\n" }][draw(3)];
						let more: Vec<String> = (0..draw_range(60, 150)).map(|_| word()).collect();
						t = more.join(sep) + sep + &t;
					}
					s.open(u, &t);
					docs.insert(u, (t.clone(), t));
				}
			}
			7 => {
				if docs.remove(u).is_some() {
					s.close(u);
				}
			}
			8 => {
				if let Some((t, t2)) = docs.get_mut(u) {
					if u.starts_with("file:") && chance(1, 2) {
						put(u, t);
					}
					let mut p = json!({"textDocument": {"uri": u}});
					if chance(2, 3) {
						if chance(1, 4) {
							// the editor changes it in the course of saving
							probe("another text saved");
							*t = text(st, 16);
						}
						p["text"] = json!(t);
						// the server takes the text of the editor over
						t2.clone_from(t);
					}
					s.notify("textDocument/didSave", p);
				}
			}
			9 => {
				// the file on disk is of no importance while it is open in the editor
				if docs.contains_key(u) && u.starts_with("file:") {
					match draw(3) {
						0 => del(u),
						_ => put(u, &text(PLAIN, 5)),
					}
					s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": draw_range(1, 3)}]}));
				}
			}
			10 => s.sleep(draw(100) as u64),
			_ => {
				if let Some(d) = docs.get(u) {
					s.completion(u, exp(d));
				}
				if chance(1, 3) {
					s.sync();
				}
			}
		}
	}
	// once everything has settled, nothing has changed
	s.sync();
	s.announces_sync();
	s.sleep(60_000);
	for (u, d) in &docs {
		s.completion(u, exp(d));
	}
	s.finish();
}

/// Files that are not open follow the disk.
fn c10() {
	let fs = any_fs();
	slow_disk();
	let with_folders = chance(3, 4);
	let all = ["file:///w/a.p4", "file:///w/b.p4", "file:///w/sub/c.p4", "file:///w/sub/deep/d.p4", "file:///w/e.p4"];
	let uris = &all[..draw_range(1, all.len())];
	for u in uris {
		if chance(1, 2) {
			put(u, &text(PLAIN, 6));
		}
	}
	let flaky = chance(1, 4);
	let mut o = open_opts(fs);
	if flaky {
		if fs == FsMode::Client {
			o.policy.error = 4;
		} else if fs == FsMode::Native {
			simdisk::disk().set_faults(DiskFaults { slow: 2, slow_ms: 50, read_error: 4, ..Default::default() });
		}
	}
	let mut s = Sess::start(o);
	s.class = "stale-file";
	let folders: &[(&str, &str)] = [
		&[("file:///w/", "w")][..],
		&[("file:///w/", "w")][..],
		&[("file:///w", "w")][..],
		&[("file:///w/sub/", "sub")][..],
		&[("file:///w/sub/", "sub"), ("file:///w/", "w")][..],
		&[("file:///other/", "other"), ("file:///w/sub/deep/", "deep"), ("file:///w/sub/", "sub")][..],
	][draw(6)];
	// now and then, there are a lot of files
	let many = if chance(1, 120) { (50 << draw(4)) + draw(50) } else { 0 };
	for i in 0..many {
		put(&format!("file:///w/sub/many/f{i}.p4"), ["", "many"][i % 2]);
	}
	if many > 0 {
		probe("many files");
		simrt::more_steps(many as u64 * 4000);
	}
	s.initialize(with_folders.then(|| folders), chance(1, 3), None);
	let mut open: BTreeMap<&str, String> = BTreeMap::new();
	// files the server has been told about since they were last open
	let n = draw_range(2, 24);
	note(format!("{n} changes on disk, {fs:?}, flaky {flaky}"));
	for k in 0..n {
		let u = uris[draw(uris.len())];
		match if k == 0 && chance(1, 2) { 10 } else { draw(11) } {
			10 => {
				// a short visit, maybe while the file is still being loaded
				if !open.contains_key(u) {
					s.open(u, &text(PLAIN, 6));
					if chance(2, 3) {
						let exists = disk_text(u).is_some();
						put(u, &text(PLAIN, 6));
						if chance(1, 2) {
							s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": if exists { 2 } else { 1 }}]}));
						}
					}
					s.close(u);
					if disk_text(u).is_some() {
						s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": 2}]}));
					}
					if chance(1, 2) {
						s.sleep(draw(200) as u64);
					}
				}
			}
			0..=4 => {
				// another program changes the disk; the client reports it, perhaps twice, perhaps together with others
				let exists = disk_text(u).is_some();
				let mut ev = vec![];
				if exists && chance(1, 3) {
					del(u);
					ev.push(json!({"uri": u, "type": 3}));
					if chance(1, 3) {
						put(u, &text(PLAIN, 6));
						ev.push(json!({"uri": u, "type": 1}));
					}
				} else {
					put(u, &text(PLAIN, 6));
					ev.push(json!({"uri": u, "type": if exists { 2 } else { 1 }}));
				}
				if fault("event reported twice", 1, 6) {
					let e = ev.last().unwrap().clone();
					ev.push(e);
				}
				if fault("event about another file", 1, 6) {
					let v = uris[fault_pick(uris.len())];
					let ty = if disk_text(v).is_some() { 2 } else { 3 };
					ev.insert(0, json!({"uri": v, "type": ty}));
				}
				if fault("late event", 1, 5) {
					s.sleep(fault_pick(500) as u64);
				}
				// a checkout, say; that of a file that is open is of no importance
				let v = open.keys().nth(draw(open.len() + 1)).copied();
				if let Some(v) = v.filter(|_| fault("many events at once", 1, 12)) {
					let ty = if disk_text(v).is_some() { 2 } else { 3 };
					let e = json!({"uri": v, "type": ty});
					ev.splice(0..0, std::iter::repeat(e).take(10 + fault_pick(120)));
				}
				s.notify("workspace/didChangeWatchedFiles", json!({ "changes": ev }));
			}
			5 => {
				let t = text(PLAIN, 6);
				if !open.contains_key(u) {
					s.open(u, &t);
					open.insert(u, t);
				}
			}
			6 => {
				if open.remove(u).is_some() {
					s.close(u);
					// what happened on disk in the meantime was reported while the file was open
					if disk_text(u).is_some() {
						s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": 2}]}));
					}
				}
			}
			7 => {
				let e = match open.get(u) {
					Some(t) => Exp::Labels(words(t)),
					None => Exp::Any,
				};
				s.completion(u, e);
			}
			8 => s.sleep(draw(200) as u64),
			_ => s.sync(),
		}
	}
	s.sync();
	s.sleep(60_000);
	if flaky {
		// the faults stop, and every file is reported once more
		simdisk::disk().set_faults(DiskFaults::default());
		if fs != FsMode::Client {
			for u in uris {
				if !open.contains_key(u) {
					s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": u, "type": if disk_text(u).is_some() { 2 } else { 3 }}]}));
				}
			}
			s.sleep(60_000);
		}
	}
	if many > 0 {
		for i in [0, many / 2, many - 1] {
			let e = Exp::Labels([vec![], vec!["many".to_string()]][i % 2].clone());
			let e = if flaky { Exp::OneOf(vec![e, Exp::Labels(vec![]), Exp::Err(-32603)]) } else { e };
			s.completion(&format!("file:///w/sub/many/f{i}.p4"), e);
		}
	}
	for round in 0..2 {
		for u in uris {
			let e = match (open.get(u), disk_text(u)) {
				(Some(t), _) => Exp::Labels(words(t)),
				(None, Some(t)) => Exp::Labels(words(&t)),
				(None, None) => Exp::OneOf(vec![Exp::Labels(vec![]), Exp::Err(-32603)]),
			};
			// an answer that failed may have been the last word
			let e = if flaky && fs == FsMode::Client { Exp::OneOf(vec![e, Exp::Labels(vec![]), Exp::Err(-32603)]) } else { e };
			s.completion(u, e);
		}
		s.sync();
		if round == 0 {
			s.sleep(60_000);
		}
	}
	s.finish();
}

/// The host always comes to an end.
fn c11() {
	let fs = any_fs();
	slow_disk();
	for i in 0..draw(4) {
		put(&format!("file:///w/f{i}.p4"), &text(PLAIN, 4));
	}
	if large("many files", 8_000_000) {
		for i in 0..draw_range(50, 300) {
			put(&format!("file:///w/m/{i}.p4"), "qa");
		}
	}
	let how = draw(5);
	let mut policy = slow_policy(fs);
	policy.max_delay_ms = [0, 20, 3000][draw(3)];
	if how != 0 {
		policy.never = [0, 3][draw(2)];
	}
	let mut s = Sess::start(Opts { fs, policy, tracing: chance(1, 4), bound: [0, 1, 3][draw(3)] });
	let how_text = ["exit", "cancelled with the channels closed", "input ends", "output closed", "cancelled while messages arrive"][how];
	note(format!("{how_text}, {fs:?}, {policy:?}"));
	probe(how_text);
	let to = s.to.clone();
	let from = s.from_clone();
	// the end comes at any moment
	let when = draw(5);
	let source_cancel = how == 1 || how == 4;
	let mut steps: Vec<usize> = (0..draw(10)).map(|_| draw(8)).collect();
	let stop_at = draw(steps.len() + 1);
	steps.truncate(steps.len());
	let mut ended = false;
	let mut opened = false;
	let mut run_end = |s: &mut Sess| {
		for _ in 0..when {
			simrt::yield_point("moment");
		}
		match how {
			0 => {
				s.notify("exit", Value::Null);
			}
			1 => {
				s.source.cancel();
				to.close();
			}
			2 => {
				to.close();
			}
			3 => {
				from.close();
				// a client that is gone does not send either
				to.close();
			}
			_ => {
				s.source.cancel();
				for _ in 0..3 {
					s.notify("no/such", Value::Null);
				}
				to.close();
			}
		}
	};
	let mut begun = false;
	for (k, op) in steps.iter().enumerate() {
		if k == stop_at {
			run_end(&mut s);
			ended = true;
			break;
		}
		match op {
			0 | 1 if !begun => {
				begun = true;
				if chance(1, 6) {
					// the client does not go on
					s.request("initialize", init_params(None, true, false, None), Exp::Any);
				} else {
					s.initialize(chance(2, 3).then(|| &[("file:///w/", "w")][..]), chance(1, 2), None);
				}
			}
			2 => {
				s.open("file:///w/x.p4", "qx zq");
				opened = true;
			}
			3 => s.completion(["file:///w/x.p4", "file:///w/f0.p4", "file:///w/none.p4"][draw(3)], Exp::Any),
			4 => s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": "file:///w/f1.p4", "type": draw_range(1, 3)}]})).then(|| ()).unwrap_or(()),
			5 => s.sleep(draw(50) as u64),
			6 => s.request("no/such", Value::Null, Exp::Any),
			_ => s.completion("file:///w/f0.p4", Exp::Any),
		}
	}
	if !ended {
		run_end(&mut s);
	}
	let _ = opened;
	let r = s.await_stop();
	if r.is_ok() == source_cancel {
		fail("wrong-result", format!("{how_text}: the host returned {r:?}"));
	}
	s.check();
}

/// Start up: registration, progress, and every file of the folders is served.
fn c14() {
	let fs = any_fs();
	slow_disk();
	let all: [(&str, &str); 4] = [("file:///w/", "first"), ("file:///v/", "second"), ("file:///w%20x/", "third"), ("file:///empty/", "fourth")];
	simdisk::disk().put_dir("/empty");
	let mut folders: Vec<(&str, &str)> = vec![];
	for f in all {
		if chance(1, 2) {
			folders.push(if chance(1, 8) { (f.0, "") } else { f });
		}
	}
	if chance(1, 20) {
		probe("many folders");
		let more = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11"];
		for n in &more[..draw_range(4, 12)] {
			folders.push((&*Box::leak(format!("file:///{n}/").into_boxed_str()), n));
		}
	}
	let mut files: BTreeMap<String, String> = BTreeMap::new();
	for (u, _) in &folders {
		if *u == "file:///empty/" {
			continue;
		}
		if large("many files", 8_000_000) {
			for i in 0..draw_range(50, 300) {
				let f = format!("{u}m/{i}.p4");
				put(&f, &numbered(i));
				files.insert(f, numbered(i));
			}
		}
		for i in 0..draw(5) {
			let f = format!("{u}{}", ["a.p4", "sub/b.p4", "sub/deep/c.p4", "d%20e.p4", "%5Bf%5D.p4"][i]);
			let t = text(PLAIN, 6);
			put(&f, &t);
			files.insert(f, t);
		}
		put(&format!("{u}not.p5"), "nope");
		put(&format!("{u}readme.md"), "nope");
	}
	let mut o = open_opts(fs);
	o.policy.refuse_progress = chance(1, 4);
	o.policy.refuse_register = chance(1, 8);
	let failing = chance(1, 4);
	if failing {
		o.policy.error = 3;
		if fs == FsMode::Native {
			simdisk::disk().set_faults(DiskFaults { read_error: 3, dir_error: 4, ..Default::default() });
		}
	}
	let progress = chance(2, 3);
	let policy = o.policy;
	note(format!("{} folders, {} files, {fs:?}, {policy:?}, progress {progress}", folders.len(), files.len()));
	let mut s = Sess::start(o);
	s.class = "file-not-served";
	let none = chance(1, 8);
	s.initialize(if none { None } else { Some(&folders) }, progress, None);
	let active = none || !policy.refuse_register;
	if !active {
		// the server cannot work without the registration
		s.request("no/such", Value::Null, Exp::Err(-32002));
		s.sync();
	} else {
		s.request("no/such", Value::Null, Exp::Err(-32603));
		if fs == FsMode::Client && !none && !failing && chance(1, 3) {
			// the files are loaded without being asked for
			probe("loaded in advance");
			s.sync();
			s.sleep(30_000);
			let st = s.sh.st.lock().unwrap();
			let read: BTreeSet<&str> = st.requests.iter().filter(|r| r.method == "p4analyzer/fileContents").filter_map(|r| r.params["uri"].as_str()).collect();
			let missing: Vec<&String> = files.keys().filter(|f| !read.contains(f.as_str())).collect();
			if !missing.is_empty() {
				let m = format!("{missing:?} not loaded");
				drop(st);
				fail("startup", m);
			}
		}
		let order: Vec<String> = files.keys().cloned().collect();
		for k in 0..order.len() {
			let u = &order[(k * 3 + 1) % order.len().max(1)];
			let e = Exp::Labels(words(&files[u]));
			s.completion(u, if failing { Exp::OneOf(vec![e, Exp::Err(-32603)]) } else { e });
		}
		s.sync();
		if !none && !folders.is_empty() && chance(1, 2) {
			// a file that is not there is reported as such
			s.completion("file:///w/none.p4", Exp::Err(-32603));
			s.sync();
		}
	}
	// what the client saw
	{
		let st = s.sh.st.lock().unwrap();
		let mut problem = String::new();
		let methods: Vec<&str> = st.requests.iter().map(|r| r.method.as_str()).collect();
		let reg = methods.iter().filter(|m| **m == "client/registerCapability").count();
		let create = methods.iter().filter(|m| **m == "window/workDoneProgress/create").count();
		if reg != if none { 0 } else { 1 } {
			problem = format!("{reg} registrations");
		}
		if reg == 1 {
			let r = st.requests.iter().find(|r| r.method == "client/registerCapability").unwrap();
			if methods[0] != "client/registerCapability" || !registered_for_all(&r.params) {
				problem = format!("registration {}", r.params);
			}
		}
		let want_create = (!none && active && progress) as usize;
		if create != want_create {
			problem = format!("{create} progress requests, expected {want_create}");
		}
		// progress: begin, one report for each folder, end; nothing if it was refused
		let p: Vec<&Value> = st.notifications.iter().filter(|n| n.1["method"] == "$/progress").map(|n| &n.1["params"]).collect();
		let kinds: Vec<&str> = p.iter().map(|v| v["value"]["kind"].as_str().unwrap_or("?")).collect();
		if create == 0 || policy.refuse_progress {
			if !kinds.is_empty() {
				problem = format!("progress {kinds:?} without a token from the client");
			}
		} else {
			let mut want = vec!["begin"];
			want.extend(folders.iter().map(|_| "report"));
			want.push("end");
			if kinds != want {
				problem = format!("progress {kinds:?}");
			}
			let token = &st.requests.iter().find(|r| r.method == "window/workDoneProgress/create").unwrap().params["token"];
			if p.iter().any(|v| v["token"] != *token) {
				problem = "progress with another token".into();
			}
			let msgs: BTreeSet<String> = p.iter().filter_map(|v| v["value"]["message"].as_str()).map(|s| s.to_string()).collect();
			for (u, n) in &folders {
				if !msgs.iter().any(|m| m.contains(u) && m.contains(n)) {
					problem = format!("no progress report for {u}: {msgs:?}");
				}
			}
		}
		if fs == FsMode::Client && !none && active {
			let mut e: Vec<String> = st.requests.iter().filter(|r| r.method == "p4analyzer/enumerateFolder").map(|r| r.params["uri"].as_str().unwrap_or("").to_string()).collect();
			let mut w: Vec<String> = folders.iter().map(|f| f.0.to_string()).collect();
			e.sort();
			w.sort();
			if e != w {
				problem = format!("enumerated {e:?}, folders {w:?}");
			}
		}
		if !problem.is_empty() {
			drop(st);
			fail("startup", problem);
		}
	}
	s.sync();
	s.notify("exit", Value::Null);
	let _ = s.await_stop();
	s.check();
}

/// Trace notifications follow the trace value.
fn c15() {
	let fs = any_fs();
	for i in 0..draw(3) {
		put(&format!("file:///w/f{i}.p4"), &text(PLAIN, 4));
	}
	let mut s = Sess::start(Opts { tracing: true, ..open_opts(fs) });
	let mut level = ["off", "messages", "verbose"][draw(3)];
	let init = [None, Some(level)][draw(2)];
	if init.is_none() {
		level = "off";
	}
	let folders = chance(1, 2);
	if chance(1, 6) {
		// what is refused has no effect
		probe("refused first");
		let p = init_params(Some(&[("file:///w/", "w")][..]), false, false, Some(["messages", "verbose"][draw(2)]));
		s.request("initialize", p, Exp::Err(-32603));
		s.sync();
	}
	s.initialize(folders.then(|| &[("file:///w/", "w")][..]), chance(1, 2), init);
	s.request("no/such", Value::Null, Exp::Err(-32603));
	s.sync();
	note(format!("trace {level} at first, {fs:?}"));
	let logs = |s: &Sess, from: usize| -> Vec<Value> {
		let st = s.sh.st.lock().unwrap();
		st.notifications.iter().filter(|n| n.0 >= from && n.1["method"] == "$/logTrace").map(|n| n.1["params"].clone()).collect()
	};
	let mark = |s: &Sess| s.sh.st.lock().unwrap().all.len();
	if level == "off" {
		if let Some(m) = logs(&s, 0).first() {
			fail("trace-when-off", format!("{m}"));
		}
	}
	let mut last = level;
	for _ in 0..draw_range(1, 6) {
		if chance(2, 3) {
			level = ["off", "messages", "verbose"][draw(3)];
			// other threads of the process trace as well
			let other = chance(1, 2).then(|| {
				probe("traced elsewhere");
				let n = draw_range(1, 12);
				thread::spawn(move || {
					for i in 0..n {
						analyzer_abstractions::tracing::info!(i, "elsewhere");
						simrt::yield_point("elsewhere");
					}
				})
			});
			s.notify("$/setTrace", json!({ "value": level }));
			if chance(1, 4) {
				s.notify("$/setTrace", json!({ "value": "loud" }));
			}
			// once this has been answered, the new level is in force
			s.request("no/such", Value::Null, Exp::Err(-32603));
			s.sync();
			if let Some(t) = other {
				let _ = t.join();
				s.sync();
			}
			// what comes in between may be of the old level or of the new one
			let _ = last;
			last = level;
		}
		let from = mark(&s);
		for _ in 0..draw_range(1, 4) {
			match draw(5) {
				0 => s.open("file:///w/f0.p4", "qa"),
				1 => s.completion("file:///w/f0.p4", Exp::Any),
				2 => s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": "file:///w/f1.p4", "type": 2}]})).then(|| ()).unwrap_or(()),
				3 => s.sleep(100),
				_ => s.request("no/such", Value::Null, Exp::Err(-32603)),
			}
		}
		s.request("no/such", Value::Null, Exp::Err(-32603));
		s.sync();
		if chance(1, 2) {
			s.sleep(5000);
		}
		let l = logs(&s, from);
		probe(&format!("traced at {level}"));
		if level == "verbose" && chance(1, 2) {
			// the details say what it is about
			let from = mark(&s);
			let u = format!("file:///w/none{from}.p4");
			s.completion(&u, Exp::Any);
			s.sync();
			if !logs(&s, from).iter().any(|m| m["verbose"].as_str().map_or(false, |v| v.contains(&u))) {
				fail("trace-level", format!("no details about {u} in {:?}", logs(&s, from)));
			}
		}
		match level {
			"off" => {
				if let Some(m) = l.first() {
					fail("trace-when-off", format!("{m}"));
				}
			}
			_ => {
				if l.is_empty() {
					fail("no-trace", format!("nothing was traced at {level}"));
				}
				for m in &l {
					if m["message"].as_str().map_or(true, |t| t.is_empty()) || (m.get("verbose").map_or(false, |v| !v.is_null())) != (level == "verbose") {
						fail("trace-level", format!("{m} at {level}"));
					}
				}
			}
		}
	}
	s.finish();
}

/// Completion sees through includes.
fn c17() {
	let fs = any_fs();
	slow_disk();
	let in_a_row = chance(1, 40);
	if in_a_row {
		simrt::more_steps(3_000_000);
	}
	let n = if in_a_row { draw_range(6, 20) } else if large("many files", 20_000_000) { draw_range(8, 40) } else { draw_range(2, 5) };
	let plain = chance(1, 3);
	// files of several folders, some with names that have to be encoded in a URL
	let dirs: Vec<&str> = (0..n).map(|_| if plain { "" } else { ["", "", "s/", "s/t/", "u/"][draw(5)] }).collect();
	let stems: Vec<String> = (0..n).map(|i| if plain || chance(3, 4) { format!("f{i}") } else { [format!("f {i}"), format!("\u{e4}{i}"), format!("f+{i}.x")][draw(3)].clone() }).collect();
	let url = |i: usize| format!("file:///w/{}{}.p4", dirs[i], stems[i].replace(' ', "%20").replace('\u{e4}', "%C3%A4"));
	// how one file names another: relative to itself, or by its URL
	let names = |from: usize, absolute: bool| -> Vec<String> {
		(0..n)
			.map(|i| {
				if absolute {
					return format!("file:///w/{}{}.p4", dirs[i], stems[i]);
				}
				let up = "../".repeat(dirs[from].matches('/').count());
				let down = if dirs[from] == dirs[i] { String::new() } else { format!("{up}{}", dirs[i]) };
				format!("{down}{}.p4", stems[i])
			})
			.collect()
	};
	let show = |i: usize, f: &pp::File| pp::render(f, &names(i, f.absolute()));
	// each of them includes the next
	let file = |i: usize, depth: usize, max: usize| {
		let mut f = pp::file(n, depth, max);
		if in_a_row && i + 1 < n {
			let at = draw(f.items.len() + 1);
			f.items.insert(at, pp::Item::Include(i + 1));
		}
		std::rc::Rc::new(f)
	};
	let mut disk: Vec<Option<std::rc::Rc<pp::File>>> = (0..n).map(|i| (i == 0 || !chance(1, if in_a_row { 60 } else { 8 })).then(|| file(i, 2, if in_a_row { 3 } else { 6 }))).collect();
	if in_a_row {
		probe("files in a row");
	}
	let mut editor: Vec<Option<std::rc::Rc<pp::File>>> = vec![None; n];
	let mut text: Vec<String> = vec![String::new(); n];
	for i in 0..n {
		if let Some(f) = &disk[i] {
			put(&url(i), &show(i, f));
		}
	}
	let with_folders = chance(1, 2);
	let mut s = Sess::start(open_opts(fs));
	s.class = "include-mismatch";
	s.initialize(with_folders.then(|| &[("file:///w/", "w")][..]), false, None);
	note(format!("{:?}, {fs:?}, folders {with_folders}", (0..n).map(&url).collect::<Vec<_>>()));
	let mut roots = vec![0usize];
	if chance(1, 2) {
		roots.push(draw(n));
	}
	roots.dedup();
	// the editor's copies differ from those on disk
	for r in roots.clone() {
		let t = file(r, 2, 8);
		text[r] = show(r, &t);
		s.open(&url(r), &text[r]);
		editor[r] = Some(t);
	}
	// files that the server has no reason to know about: closed, and not reported since
	let mut stale = vec![false; n];
	let mut version = 1;
	for round in 0..draw_range(1, 4) {
		// every completion has the server load what it finds missing
		for _ in 0..=n.min(30) {
			for r in &roots {
				s.completion(&url(*r), Exp::Any);
			}
			s.sync();
			s.sleep(30_000);
		}
		let files: Vec<Option<std::rc::Rc<pp::File>>> = (0..n).map(|i| editor[i].clone().or(disk[i].clone())).collect();
		for r in &roots {
			let (want, seen) = pp::expand(*r, &files);
			if seen > 1 {
				probe("include followed");
			}
			if seen > 2 {
				probe("several includes followed");
			}
			s.completion(&url(*r), Exp::Labels(want));
		}
		s.sync();
		// the other files are as good as the ones that are open
		for k in 0..n.min(8) {
			if editor[k].is_some() || stale[k] {
				continue;
			}
			if disk[k].is_none() {
				s.completion(&url(k), Exp::OneOf(vec![Exp::Labels(vec![]), Exp::Err(-32603)]));
				// what it loads for that is what is there now
				s.sync();
				s.sleep(30_000);
				continue;
			}
			for _ in 0..=n.min(30) {
				s.completion(&url(k), Exp::Any);
				s.sync();
				s.sleep(30_000);
			}
			probe("file that is not open");
			s.completion(&url(k), Exp::Labels(pp::expand(k, &files).0));
			s.sync();
		}
		// one that is being written
		if chance(1, 2) {
			let u = format!("file:///w/draft{round}.p4");
			let f = pp::draft(n, 5);
			s.open(&u, &pp::render(&f, &(0..n).map(|i| format!("{}{}.p4", dirs[i], stems[i])).collect::<Vec<_>>()));
			for _ in 0..=n.min(30) {
				s.completion(&u, Exp::Any);
				s.sync();
				s.sleep(30_000);
			}
			probe("draft");
			s.completion(&u, Exp::Labels(pp::expand_draft(&f, &files)));
			s.sync();
		}
		if round == 3 {
			break;
		}
		// now and then, a lot happens while files are being loaded
		let busy = chance(1, 3);
		let mut again = None;
		for _ in 0..draw_range(1, if busy { 9 } else { 2 }) {
			let same = again.take();
			let k = same.unwrap_or_else(|| draw(n));
			if busy && chance(1, 2) {
				s.completion(&url(roots[draw(roots.len())]), Exp::Any);
				if chance(1, 2) {
					s.sleep([1, 20, 300][draw(3)]);
				}
			}
			match if same.is_some() { draw_range(2, 3) } else { draw(6) } {
				0 | 1 => {
					// edit one of the open files
					let r = roots[draw(roots.len())];
					let r = if editor[k].is_some() { k } else { r };
					let t = std::rc::Rc::new(pp::file(n, 2, 8));
					let new = show(r, &t);
					version += 1;
					let change = if chance(1, 2) {
						json!({"text": new})
					} else {
						// only the lines that differ
						probe("partial change");
						let (a, b): (Vec<&str>, Vec<&str>) = (text[r].split('\n').collect(), new.split('\n').collect());
						let mut from = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
						// a line feed follows every line but the last one
						from = from.min(a.len() - 1).min(b.len() - 1);
						let last = a.last().unwrap();
						json!({"range": {"start": {"line": from, "character": 0}, "end": {"line": a.len() - 1, "character": last.encode_utf16().count()}}, "text": b[from..].join("\n")})
					};
					s.notify("textDocument/didChange", json!({"textDocument": {"uri": url(r), "version": version}, "contentChanges": [change]}));
					text[r] = new;
					editor[r] = Some(t);
				}
				2 => {
					// one of the files changes on disk
					let existed = disk[k].is_some();
					let t = std::rc::Rc::new(pp::file(n, 1, 5));
					put(&url(k), &show(k, &t));
					disk[k] = Some(t);
					if editor[k].is_some() {
						probe("open file changed on disk");
					}
					stale[k] &= editor[k].is_some();
					s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": url(k), "type": if existed { 2 } else { 1 }}]}));
				}
				3 => {
					if disk[k].is_some() {
						del(&url(k));
						disk[k] = None;
						if editor[k].is_some() {
							probe("open file deleted from disk");
						}
						s.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": url(k), "type": 3}]}));
					}
				}
				4 => {
					// open one that may be included
					if editor[k].is_none() {
						let t = std::rc::Rc::new(pp::file(n, 1, 5));
						text[k] = show(k, &t);
						s.open(&url(k), &text[k]);
						editor[k] = Some(t);
					}
				}
				_ => {
					// close one, which brings back what is on disk
					let open: Vec<usize> = (0..n).filter(|k| editor[*k].is_some() && !roots.contains(k)).collect();
					if !open.is_empty() {
						let k = open[draw(open.len())];
						probe("included file closed");
						s.notify("textDocument/didClose", json!({"textDocument": {"uri": url(k)}}));
						editor[k] = None;
						stale[k] = true;
						// it is then loaded by the next one that includes it, while something happens to it
						if chance(1, 2) {
							s.completion(&url(roots[draw(roots.len())]), Exp::Any);
							s.sleep([1, 20, 300][draw(3)]);
							again = Some(k);
						}
					}
				}
			}
			if chance(1, 2) {
				s.sync();
			}
		}
	}
	let _ = (thread::current(), log as fn(String));
	s.finish();
}
