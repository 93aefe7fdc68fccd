//! C20: the WebAssembly module between a simulated JavaScript event loop and a simulated client.
mod page;
#[path = "../../h-host/src/text.rs"]
mod text;

use page::*;
use serde_json::{json, Value};
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, fault_pick, log, note, probe};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use text::*;
use wasm_bindgen::JsValue;

fn main() { harness_main(&[Prop { id: "C20", main: c20, max_steps: 200_000 }]) }

const PLAIN: Style = Style { crlf: false, wide: true, astral: true, cr: false };

fn utf8(v: &JsValue) -> String {
	match v {
		JsValue::Bytes(b) => match String::from_utf8(b.borrow().clone()) {
			Ok(s) => s,
			Err(e) => fail("not-a-message", format!("{e}")),
		},
		v => fail("not-a-message", format!("{v:?}")),
	}
}

#[derive(Clone, PartialEq, Debug)]
enum Want {
	Err(i64),
	Null,
	Labels(Vec<String>),
	Caps,
}

#[derive(Default)]
struct Client {
	files: BTreeMap<String, String>,
	open: BTreeMap<String, String>,
	want: Vec<(Value, Want)>,
	responses: Vec<Value>,
	traces: Vec<Value>,
	/// answers that are due: (time, message)
	answers: Vec<(u64, Value)>,
	asked: usize,
	never: bool,
}

/// Called with every message of the module.
fn receive(c: &mut Client, v: &JsValue) {
	let s = utf8(v);
	let m: Value = match serde_json::from_str(&s) {
		Ok(m) => m,
		Err(e) => fail("not-a-message", format!("{e}: {s:?}")),
	};
	if m["jsonrpc"] != "2.0" {
		fail("not-a-message", s);
	}
	log(format!("| out {}", s.chars().take(120).collect::<String>()));
	match (m.get("method").and_then(|x| x.as_str()), m.get("id")) {
		(Some(method), Some(id)) => {
			c.asked += 1;
			let uri = m["params"]["uri"].as_str().unwrap_or("").to_string();
			let failed = json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "failed"}});
			let ok = |v: Value| json!({"jsonrpc": "2.0", "id": id, "result": v});
			let mut a = match method {
				"p4analyzer/enumerateFolder" => ok(c.files.keys().filter(|f| f.starts_with(&uri)).map(|f| json!({ "uri": f })).collect()),
				"p4analyzer/fileContents" => c.files.get(&uri).map_or(failed.clone(), |t| ok(json!(t))),
				_ => ok(Value::Null),
			};
			if method.starts_with("p4analyzer/") && fault("client answers with an error", 1, 12) {
				a = failed;
				// nothing is said about what could not be read
				if c.files.remove(&uri).is_none() {
					c.files.clear();
				}
			}
			if c.never && fault("client never answers", 1, 3) {
				return;
			}
			let late = if fault("delayed answer", 1, 3) { 1 + fault_pick(3000) as u64 } else { 0 };
			c.answers.push((simrt::now_ns() + late * MS, a));
		}
		(None, Some(_)) => c.responses.push(m),
		(Some("$/logTrace"), None) => c.traces.push(m["params"].clone()),
		(Some(_), None) => {}
		(None, None) => fail("not-a-message", s),
	}
}

fn right(w: &Want, r: &Value) -> bool {
	let none = r.get("error").is_none();
	match w {
		Want::Err(c) => r.get("result").is_none() && r["error"]["code"] == json!(c),
		Want::Null => none && r.get("result") == Some(&Value::Null),
		Want::Caps => none && r["result"]["capabilities"].is_object(),
		Want::Labels(l) => {
			let v = &r["result"];
			let items = if v.is_array() { v } else { &v["items"] };
			none && items.as_array().map(|i| i.iter().map(|x| x["label"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>()).as_ref() == Some(l)
		}
	}
}

/// A session of the module, from start to end.
fn c20() {
	let how = draw(4);
	let how_text = ["exit", "exit", "stop", "stop before it starts"][how];
	let mut n = draw_range(1, [3, 8, 20][draw(3)]);
	// now and then, a long session with long messages
	let big = chance(1, 150);
	if big {
		probe("long session");
		simrt::more_steps(3_000_000);
		n = draw_range(60, 250);
	}
	note(format!("{n} messages, then {how_text}"));
	probe(how_text);
	let page = Page::new();
	let cl = Rc::new(RefCell::new(Client { never: how == 2 && chance(1, 4), ..Default::default() }));
	let folders = chance(1, 2);
	for i in 0..if big { draw(60) } else { draw(3) } {
		cl.borrow_mut().files.insert(format!("file:///w/f{i}.p4"), text(PLAIN, 6));
	}
	let server: &'static p4_analyzer_wasm::LspServer = {
		let cl = cl.clone();
		Box::leak(Box::new(p4_analyzer_wasm::LspServer::new(js_sys::Function(Rc::new(move |v| {
			receive(&mut cl.borrow_mut(), v);
			Ok(JsValue::UNDEFINED)
		})))))
	};
	let ended: Rc<RefCell<Option<bool>>> = Rc::default();
	if how == 3 {
		server.stop();
	}
	{
		let ended = ended.clone();
		page.spawn(async move {
			let r = server.start().await;
			log(format!("| start returns {r:?}"));
			*ended.borrow_mut() = Some(r.is_ok());
		});
	}
	let answered: Rc<RefCell<Vec<(bool, bool)>>> = Rc::default();
	let send = |b: Vec<u8>, valid: bool| {
		simrt::op();
		let answered = answered.clone();
		let buffer = JsValue::from(js_sys::Uint8Array::from(&b[..]));
		page.spawn(async move {
			let r = server.send_request(buffer.into()).await;
			answered.borrow_mut().push((valid, r.is_ok()));
		});
	};
	let mut id = 0;
	let mut request = |m: &str, p: Value, w: Want| {
		id += 1;
		let k = if id % 3 == 0 { json!(format!("r{id}")) } else { json!(id) };
		cl.borrow_mut().want.push((k.clone(), w));
		let mut v = json!({"jsonrpc": "2.0", "id": k, "method": m});
		if !p.is_null() {
			v["params"] = p;
		}
		send(v.to_string().into_bytes(), true);
	};
	let notify = |m: &str, p: Value| send(json!({"jsonrpc": "2.0", "method": m, "params": p}).to_string().into_bytes(), true);
	// between the messages of the editor, which may come in one turn of the event loop, come the answers of the client
	let turn = |most: u64| {
		let until = simrt::now_ns() + most;
		loop {
			page.drain();
			let due = {
				let mut c = cl.borrow_mut();
				let now = simrt::now_ns();
				let mut due: Vec<usize> = (0..c.answers.len()).filter(|k| c.answers[*k].0 <= now).collect();
				match due.len() {
					0 => None,
					n => Some(c.answers.remove(due.swap_remove(draw(n))).1),
				}
			};
			if let Some(a) = due {
				send(a.to_string().into_bytes(), true);
				continue;
			}
			let next = cl.borrow().answers.iter().map(|a| a.0).min();
			match next {
				Some(t) if t <= until => simrt::sleep_ns(t - simrt::now_ns()),
				_ => break,
			}
		}
	};
	// the trace value in force, the values that have been, and the requests that have to leave a trace
	let levels = ["off", "messages", "verbose"];
	let (mut level, mut may, mut must) = (0, [true, false, false], vec![]);
	if how != 3 && chance(7, 8) {
		let mut p = json!({"processId": null, "rootUri": null, "capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}, "window": {"workDoneProgress": (chance(1, 2))}}});
		if folders {
			p["workspaceFolders"] = json!([{"uri": "file:///w/", "name": "w"}]);
		}
		if chance(1, 2) {
			level = draw(3);
			may[level] = true;
			p["trace"] = json!(levels[level]);
		}
		request("initialize", p, Want::Caps);
		notify("initialized", json!({}));
		if chance(1, 2) {
			turn(MS * draw(3000) as u64);
		}
		for _ in 0..n {
			let uri = format!("file:///{}/g{}.p4", if chance(1, 2) { "w" } else { "o" }, draw(2));
			match draw(6) {
				0 => {
					request("no/such", Value::Null, Want::Err(-32603));
					if level > 0 {
						must.extend(cl.borrow().want.last().map(|w| w.0.clone()));
					}
				}
				1 | 2 => {
					let t = text(PLAIN, if big && chance(1, 10) { 3000 } else { 10 });
					cl.borrow_mut().open.insert(uri.clone(), t.clone());
					notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": t}}));
				}
				3 => {
					let w = cl.borrow().open.get(&uri).map(|t| Want::Labels(words(t)));
					if let Some(w) = w {
						request("textDocument/completion", json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}), w);
					}
				}
				4 => {
					simrt::count_fault("not a message");
					send([&b"{"[..], b"null", b"[]", b"\xff", b"{\"id\":1}x", b""][draw(6)].to_vec(), false);
				}
				_ => {
					level = draw(3);
					may[level] = true;
					notify("$/setTrace", json!({"value": (levels[level])}))
				}
			}
			if chance(1, 2) {
				turn(if chance(1, 3) { 5000 * MS } else { 0 });
			}
		}
		if folders && how == 0 && chance(1, 2) {
			// the files of the workspace, once they have been read
			turn(60_000 * MS);
			let known: Vec<(String, String)> = cl.borrow().files.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
			for (u, t) in known {
				request("textDocument/completion", json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}}), Want::Labels(words(&t)));
			}
		}
		if how < 2 && chance(1, 2) {
			request("shutdown", Value::Null, Want::Null);
		}
	}
	match how {
		0 | 1 => notify("exit", Value::Null),
		2 => {
			if chance(1, 2) {
				turn(0);
			}
			simrt::count_fault("stopped");
			server.stop();
		}
		_ => {}
	}
	turn(900_000 * MS);
	let all = cl.borrow();
	match *ended.borrow() {
		None => fail("did-not-stop", format!("start() has not returned after: {how_text}")),
		Some(ok) if ok != (how < 2) => fail("wrong-result", format!("start() returned {} after: {how_text}", if ok { "normally" } else { "with an error" })),
		_ => {}
	}
	for (k, r) in all.responses.iter().enumerate() {
		match all.want.get(k) {
			Some((id, w)) if r["id"] == *id => {
				if !right(w, r) {
					fail("wrong-response", format!("{r} instead of {w:?}"));
				}
			}
			w => fail("wrong-response", format!("response {k} is {r} instead of {w:?}")),
		}
	}
	if how < 2 && all.responses.len() != all.want.len() {
		fail("lost-response", format!("{} responses to {} requests", all.responses.len(), all.want.len()));
	}
	for t in &all.traces {
		let kind = if t.get("verbose").map_or(false, |v| !v.is_null()) { 2 } else { 1 };
		if !may[kind] || t["message"].as_str().map_or(true, |m| m.is_empty()) {
			fail("wrong-trace", format!("{t}"));
		}
	}
	if how < 2 && all.traces.is_empty() && all.responses.iter().any(|r| must.contains(&r["id"])) {
		fail("wrong-trace", "no trace messages".into());
	}
	if !all.traces.is_empty() {
		probe("traced");
	}
	// before the end, what is a message is accepted, and nothing else
	let got = answered.borrow();
	if got.iter().any(|(valid, ok)| !valid && *ok) {
		fail("accepted", "something that is not a message was accepted".into());
	}
	if how < 2 && all.asked == 0 && got.iter().any(|(valid, ok)| *valid && !*ok) {
		fail("refused", "a message was refused".into());
	}
	drop(got);
	drop(all);
	// the module is of no more use, and says so
	notify("$/setTrace", json!({"value": "off"}));
	turn(0);
	if answered.borrow().last() != Some(&(true, false)) {
		fail("accepted", "a message was accepted after the end".into());
	}
}
