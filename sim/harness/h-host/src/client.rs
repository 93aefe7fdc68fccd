//! A simulated LSP client around the real AnalyzerHost: what it sends, what it receives, what it answers.
use analyzer_abstractions::{
	fs::{AnyEnumerableFileSystem, EnumerableFileSystem},
	lsp_types::{TextDocumentIdentifier, Url},
	BoxFuture,
};
use analyzer_host::{
	json_rpc::message::Message,
	tracing::{
		tracing_subscriber::{prelude::__tracing_subscriber_SubscriberExt, Registry},
		LspTracingLayer,
	},
	AnalyzerHost, MessageChannel,
};
use async_channel::{Receiver, Sender};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use simrt::{chance, draw, draw_range, fail, fault, fault_pick, log, probe};
use simstd::simdisk;
use simstd::sync::{Arc, Condvar, Mutex};
use simstd::thread;
use simstd::time::Duration;
use std::collections::BTreeMap;

pub const MS: u64 = 1_000_000;
/// Virtual time after which something that should have happened has not happened.
pub const PATIENCE: u64 = 900_000 * MS;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FsMode {
	/// the NativeFs of p4-analyzer over the simulated disk
	Native,
	/// a file system that takes its time
	Slow,
	/// the client, through p4analyzer/* requests
	Client,
}
pub fn any_fs() -> FsMode { [FsMode::Native, FsMode::Slow, FsMode::Client][draw(3)] }

/// What the client does with the requests of the server.
#[derive(Clone, Copy, Debug)]
pub struct Policy {
	pub max_delay_ms: usize,
	/// one in n, 0: never
	pub error: usize,
	pub duplicate: usize,
	pub unknown: usize,
	/// answers with a result of another type
	pub bad_type: usize,
	pub refuse_progress: bool,
	pub refuse_register: bool,
	pub never: usize,
}
impl Policy {
	pub fn good() -> Policy {
		Policy { max_delay_ms: 0, error: 0, duplicate: 0, unknown: 0, bad_type: 0, refuse_progress: false, refuse_register: false, never: 0 }
	}
	pub fn slow() -> Policy { Policy { max_delay_ms: [0, 5, 2000][draw(3)], ..Policy::good() } }
}

pub struct ServerReq {
	pub at: usize,
	pub id: Value,
	pub method: String,
	pub params: Value,
	pub fate: &'static str,
}

#[derive(Default)]
pub struct Seen {
	/// everything the server sent, in order
	pub all: Vec<Value>,
	pub responses: Vec<(usize, Value)>,
	pub notifications: Vec<(usize, Value)>,
	pub requests: Vec<ServerReq>,
	pub ended: bool,
	/// what the client still has to answer: (due, order, message)
	answers: Vec<(u64, u64, Value)>,
	order: u64,
	pub answered: usize,
	pub result: Option<Result<(), ()>>,
	pub stop_answering: bool,
}

pub struct Shared {
	pub st: Mutex<Seen>,
	pub cv: Condvar,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
	/// an error with this code
	Err(i64),
	Null,
	Hover(u64, u64),
	/// a list of completions with exactly these labels
	Labels(Vec<String>),
	/// these labels; the second ones if it fails as is known
	Known(Vec<String>, Vec<String>, &'static str),
	Init(bool),
	OneOf(Vec<Exp>),
	/// any response
	Any,
}

pub fn labels(v: &Value) -> Option<Vec<String>> {
	let items = if v.is_array() { v.as_array() } else { v["items"].as_array() }?;
	items.iter().map(|i| i["label"].as_str().map(|s| s.to_string())).collect()
}

fn matches(e: &Exp, r: &Value) -> bool {
	match e {
		Exp::Err(c) => r.get("result").is_none() && r["error"]["code"].as_i64() == Some(*c),
		Exp::Null => r.get("error").is_none() && r.get("result") == Some(&Value::Null),
		Exp::Hover(l, c) => {
			let t = r["result"]["contents"]["value"].as_str().unwrap_or("").to_string();
			r.get("error").is_none() && t.contains(&format!("*{l}*")) && t.contains(&format!("*{c}*"))
		}
		Exp::Labels(l) => r.get("error").is_none() && labels(&r["result"]).as_ref() == Some(l),
		Exp::Known(l, ..) => matches(&Exp::Labels(l.clone()), r),
		Exp::Init(folders) => {
			let c = &r["result"]["capabilities"];
			r.get("error").is_none()
				&& c["textDocumentSync"]["change"] == json!(2)
				&& c["textDocumentSync"]["save"]["includeText"] == json!(true)
				&& c["completionProvider"].is_object()
				&& c["hoverProvider"] == json!(true)
				&& *folders == (c["workspace"]["workspaceFolders"]["supported"] == json!(true))
		}
		Exp::OneOf(v) => v.iter().any(|e| matches(e, r)),
		Exp::Any => r.get("error").is_some() != r.get("result").is_some(),
	}
}

pub struct Sess {
	pub to: Sender<Message>,
	from: Receiver<Message>,
	pub sh: Arc<Shared>,
	pub expected: Vec<(Value, Exp, String)>,
	pub checked: usize,
	ids: usize,
	pub source: CancellationTokenSource,
	pub class: &'static str,
	host: Option<thread::JoinHandle<()>>,
}

struct SlowFs {
	max_ms: usize,
}

pub fn url_path(u: &str) -> Option<String> { Url::parse(u).ok()?.to_file_path().ok()?.to_str().map(|s| s.to_string()) }

pub fn disk_text(u: &str) -> Option<String> {
	let p = url_path(u)?;
	simdisk::disk().get(&p).map(|d| String::from_utf8_lossy(&d).into_owned())
}
/// Whether a path relative to a folder matches a pattern as the protocol defines them.
pub fn glob_matches(pattern: &str, path: &str) -> bool {
	// alternatives first
	if let Some(a) = pattern.find('{') {
		if let Some(b) = pattern[a..].find('}') {
			return pattern[a + 1..a + b].split(',').any(|x| glob_matches(&format!("{}{x}{}", &pattern[..a], &pattern[a + b + 1..]), path));
		}
	}
	fn go(p: &[char], s: &[char]) -> bool {
		match p {
			[] => s.is_empty(),
			['*', '*', '/', rest @ ..] => go(rest, s) || (0..s.len()).any(|k| s[k] == '/' && go(rest, &s[k + 1..])),
			['*', '*', rest @ ..] => (0..=s.len()).any(|k| go(rest, &s[k..])),
			['*', rest @ ..] => (0..=s.len()).take_while(|k| *k == 0 || s[k - 1] != '/').any(|k| go(rest, &s[k..])),
			['?', rest @ ..] => matches!(s, [c, ..] if *c != '/') && go(rest, &s[1..]),
			['[', rest @ ..] if rest.contains(&']') && !s.is_empty() => {
				let end = rest.iter().position(|c| *c == ']').unwrap();
				let (not, set) = match &rest[..end] {
					['!' | '^', set @ ..] => (true, set),
					set => (false, set),
				};
				let mut hit = false;
				let mut k = 0;
				while k < set.len() {
					if k + 2 < set.len() && set[k + 1] == '-' {
						hit |= set[k] <= s[0] && s[0] <= set[k + 2];
						k += 3;
					} else {
						hit |= set[k] == s[0];
						k += 1;
					}
				}
				hit != not && go(&rest[end + 1..], &s[1..])
			}
			[c, rest @ ..] => s.first() == Some(c) && go(rest, &s[1..]),
		}
	}
	go(&pattern.chars().collect::<Vec<_>>(), &path.chars().collect::<Vec<_>>())
}

/// Whether what a client registered for has it report all that happens to P4 files.
pub fn registered_for_all(params: &Value) -> bool {
	let watchers: Vec<&Value> = params["registrations"]
		.as_array()
		.into_iter()
		.flatten()
		.filter(|r| r["method"] == "workspace/didChangeWatchedFiles")
		.flat_map(|r| r["registerOptions"]["watchers"].as_array().into_iter().flatten())
		.collect();
	// create, change and delete
	[1u64, 2, 4].iter().all(|kind| {
		["f.p4", "s/f.p4", "s/t/u v/f.p4"].iter().all(|f| {
			watchers.iter().any(|w| {
				let g = w["globPattern"].as_str().or(w["globPattern"]["pattern"].as_str()).unwrap_or("");
				(w["kind"].is_null() || w["kind"].as_u64().unwrap_or(0) & kind != 0) && glob_matches(g, f)
			})
		})
	})
}

pub fn disk_list(folder: &str, pattern: &str) -> Vec<String> {
	let Some(p) = url_path(folder) else { return vec![] };
	let p = p.trim_end_matches('/').to_string() + "/";
	simdisk::disk()
		.files()
		.into_iter()
		.filter(|(f, _)| f.to_str().unwrap().strip_prefix(&p).map_or(false, |r| glob_matches(pattern, r)))
		.map(|(f, _)| Url::from_file_path(f).unwrap().to_string())
		.collect()
}

impl EnumerableFileSystem for SlowFs {
	fn enumerate_folder<'a>(&'a self, folder: Url, pattern: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let ms = fault_pick(self.max_ms + 1) as u64;
		Box::pin(async move {
			simrt::sleep_for(ms * MS).await;
			disk_list(folder.as_str(), &pattern).into_iter().map(|u| TextDocumentIdentifier { uri: Url::parse(&u).unwrap() }).collect()
		})
	}
	fn file_contents<'a>(&'a self, file: Url) -> BoxFuture<'a, Option<String>> {
		// the contents are those of some moment between the request and the answer
		let (a, b) = (fault_pick(self.max_ms + 1) as u64, fault_pick(self.max_ms + 1) as u64);
		if a + b > 0 {
			simrt::count_fault("slow file system");
		}
		Box::pin(async move {
			simrt::sleep_for(a * MS).await;
			let t = disk_text(file.as_str());
			simrt::sleep_for(b * MS).await;
			t
		})
	}
}

pub struct Opts {
	pub fs: FsMode,
	pub policy: Policy,
	pub tracing: bool,
	/// the messages come through a channel of this size (0: unbounded, as in the product)
	pub bound: usize,
}

impl Sess {
	pub fn start(o: Opts) -> Sess {
		let ch = |b: usize| if b == 0 { async_channel::unbounded::<Message>() } else { async_channel::bounded::<Message>(b) };
		let (to, to_rx) = ch(o.bound);
		let (from_tx, from) = ch(0);
		let sh = Arc::new(Shared { st: Mutex::new(Seen::default()), cv: Condvar::new() });
		let source = CancellationTokenSource::new();
		let token = source.token().clone();
		let host = {
			let sh = sh.clone();
			let chan: MessageChannel = (from_tx, to_rx);
			thread::Builder::new()
				.name("host".into())
				.spawn(move || {
					let trace = o.tracing.then(|| {
						let layer = LspTracingLayer::new(chan.clone());
						let t = layer.trace_value();
						analyzer_abstractions::tracing::subscriber::set_global_default(Registry::default().with(layer)).unwrap();
						t
					});
					let fs: Option<Arc<AnyEnumerableFileSystem>> = match o.fs {
						FsMode::Native => Some(Arc::new(p4_analyzer::native_fs::native_fs::NativeFs::new())),
						FsMode::Slow => Some(Arc::new(Box::new(SlowFs { max_ms: [3, 50, 3000][draw(3)] }))),
						FsMode::Client => None,
					};
					let host = AnalyzerHost::new(chan, trace, fs);
					let r = simrt::block_on(host.start(token));
					log(format!("host returned {}", r.is_ok()));
					sh.st.lock().unwrap().result = Some(r.map_err(|_| ()));
					sh.cv.notify_all();
				})
				.unwrap()
		};
		let s = Sess { to, from, sh, expected: vec![], checked: 0, ids: 0, source, class: "", host: Some(host) };
		s.spawn_receiver(o.policy);
		s.spawn_answerer();
		s
	}

	fn spawn_receiver(&self, policy: Policy) {
		let (sh, from) = (self.sh.clone(), self.from.clone());
		thread::Builder::new()
			.name("client-reader".into())
			.spawn(move || loop {
				let m = simrt::block_on(from.recv());
				let Ok(m) = m else {
					sh.st.lock().unwrap().ended = true;
					sh.cv.notify_all();
					return;
				};
				let v = serde_json::to_value(&m).unwrap();
				log(format!("client < {}", brief(&v)));
				let mut st = sh.st.lock().unwrap();
				let at = st.all.len();
				st.all.push(v.clone());
				match m {
					Message::Response(_) => st.responses.push((at, v)),
					Message::Notification(_) => st.notifications.push((at, v)),
					Message::Request(_) => answer(&mut st, at, v, policy),
				}
				drop(st);
				sh.cv.notify_all();
			})
			.unwrap();
	}

	fn spawn_answerer(&self) {
		let (sh, to) = (self.sh.clone(), self.to.clone());
		thread::Builder::new()
			.name("client-answers".into())
			.spawn(move || {
				let mut st = sh.st.lock().unwrap();
				loop {
					if st.ended || st.stop_answering {
						return;
					}
					let now = simrt::now_ns();
					let next = (0..st.answers.len()).min_by_key(|i| (st.answers[*i].0, st.answers[*i].1));
					match next {
						Some(i) if st.answers[i].0 <= now => {
							let (_, _, v) = st.answers.remove(i);
							drop(st);
							log(format!("client > {}", brief(&v)));
							let _ = simrt::block_on(to.send(serde_json::from_value(v).unwrap()));
							st = sh.st.lock().unwrap();
							st.answered += 1;
						}
						Some(i) => {
							let d = st.answers[i].0 - now;
							st = sh.cv.wait_timeout(st, Duration::from_nanos(d)).unwrap().0;
						}
						None => st = sh.cv.wait(st).unwrap(),
					}
				}
			})
			.unwrap();
	}

	pub fn send(&self, v: Value) -> bool {
		log(format!("client > {}", brief(&v)));
		match serde_json::from_value::<Message>(v) {
			Ok(m) => simrt::block_on(self.to.send(m)).is_ok(),
			Err(e) => panic!("harness: {e}"),
		}
	}
	pub fn notify(&self, method: &str, params: Value) -> bool {
		let mut v = json!({ "method": method });
		if !params.is_null() {
			v["params"] = params;
		}
		self.send(v)
	}
	pub fn request(&mut self, method: &str, params: Value, e: Exp) {
		self.ids += 1;
		let id = match draw(6) {
			0 => json!(format!("id-{}", self.ids)),
			1 => json!(format!("{}", self.ids)),
			2 => json!(-(self.ids as i64)),
			_ => json!(self.ids),
		};
		let mut v = json!({ "id": id, "method": method });
		if !params.is_null() {
			v["params"] = params.clone();
		}
		self.expected.push((id, e, format!("{method} {}", cut(&params.to_string()))));
		self.send(v);
	}

	/// Waits until `f` holds for what was seen.
	pub fn wait(&self, what: &str, limit_ns: u64, mut f: impl FnMut(&Seen) -> bool) -> bool {
		let end = simrt::now_ns() + limit_ns;
		let mut st = self.sh.st.lock().unwrap();
		loop {
			if f(&st) {
				return true;
			}
			let now = simrt::now_ns();
			if now >= end {
				drop(st);
				log(format!("gave up waiting for {what}"));
				return false;
			}
			st = self.sh.cv.wait_timeout(st, Duration::from_nanos(end - now)).unwrap().0;
		}
	}

	/// Waits for the responses to all requests so far, and checks them.
	pub fn sync(&mut self) {
		let n = self.expected.len();
		if !self.wait("responses", PATIENCE, |s| s.responses.len() >= n || s.ended) {
			self.check();
			let k = self.sh.st.lock().unwrap().responses.len();
			fail("no-response", format!("request without a response: {}", self.expected[k].2));
		}
		self.check();
		let k = self.sh.st.lock().unwrap().responses.len();
		if k < n {
			fail("no-response", format!("the server ended without a response to {}", self.expected[k].2));
		}
	}

	pub fn check(&mut self) {
		let st = self.sh.st.lock().unwrap();
		while self.checked < st.responses.len() {
			let (_, r) = &st.responses[self.checked];
			let r = r.clone();
			let Some((id, e, what)) = self.expected.get(self.checked) else {
				drop(st);
				fail("extra-response", format!("a response nobody asked for: {}", brief(&r)));
			};
			let (id, e, what) = (id.clone(), e.clone(), what.clone());
			if r["id"] != id {
				drop(st);
				fail("response-order", format!("expected the response to {what} (id {id}), got {}", brief(&r)));
			}
			if !matches(&e, &r) {
				drop(st);
				if let Exp::Known(_, l, class) = &e {
					if matches(&Exp::Labels(l.clone()), &r) {
						fail(class, format!("{what}: expected {e:?}, got {}", r));
					}
				}
				fail(
					if self.class.is_empty() { "wrong-response" } else { self.class },
					format!("{what}: expected {e:?}, got {}", r),
				);
			}
			self.checked += 1;
		}
	}

	pub fn initialize(&mut self, folders: Option<&[(&str, &str)]>, progress: bool, trace: Option<&str>) {
		let p = init_params(folders, true, progress, trace);
		self.request("initialize", p, Exp::Init(folders.is_some()));
		self.notify("initialized", json!({}));
	}

	/// A client sends what happens to its documents only to a server that has asked for it.
	pub fn announces_sync(&self) {
		let st = self.sh.st.lock().unwrap();
		let c = st.responses[0].1["result"]["capabilities"]["textDocumentSync"].clone();
		drop(st);
		if c["openClose"] != json!(true) || c["change"] != json!(2) {
			fail("not-announced", format!("an editor would not send openings, closings and edits to a server that announces {c}"));
		}
	}

	pub fn completion(&mut self, uri: &str, e: Exp) {
		self.request("textDocument/completion", json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}), e);
	}
	pub fn open(&self, uri: &str, text: &str) {
		self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": text}}));
	}
	pub fn close(&self, uri: &str) { self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}})); }

	/// The host returns within the deadline.
	pub fn await_stop(&mut self) -> Result<(), ()> {
		if !self.wait("the host to stop", PATIENCE, |s| s.result.is_some()) {
			fail("did-not-stop", "the host did not return".into());
		}
		let _ = self.host.take().unwrap().join();
		// whatever was sent has been received by now, or is about to be
		self.wait("the end of the messages", PATIENCE, |s| s.ended);
		let r = self.sh.st.lock().unwrap().result.unwrap();
		r
	}

	/// Ends the session in the orderly way and checks that nothing is missing or too much.
	pub fn finish(&mut self) {
		self.sync();
		if chance(1, 2) {
			self.request("shutdown", Value::Null, Exp::Null);
			self.sync();
		}
		self.notify("exit", Value::Null);
		if self.await_stop().is_err() {
			fail("wrong-result", "the host reports a cancellation after 'exit'".into());
		}
		self.check();
		let st = self.sh.st.lock().unwrap();
		if st.responses.len() != self.expected.len() {
			drop(st);
			fail("extra-response", "the number of responses differs from the number of requests".into());
		}
		let mut ids: BTreeMap<String, usize> = BTreeMap::new();
		for r in &st.requests {
			*ids.entry(r.id.to_string()).or_insert(0) += 1;
		}
		if let Some((id, n)) = ids.iter().find(|x| *x.1 > 1) {
			let d = format!("server request id {id} was used {n} times");
			drop(st);
			fail("request-id-reused", d);
		}
	}

	pub fn from_clone(&self) -> Receiver<Message> { self.from.clone() }
	pub fn sleep(&self, ms: u64) { simrt::sleep_ns(ms * MS) }
}

pub fn init_params(folders: Option<&[(&str, &str)]>, watched: bool, progress: bool, trace: Option<&str>) -> Value {
	let mut p = json!({ "processId": null, "rootUri": null, "capabilities": {} });
	if watched {
		p["capabilities"]["workspace"] = json!({"didChangeWatchedFiles": {"dynamicRegistration": true}});
	} else if chance(1, 2) {
		p["capabilities"]["workspace"] = [json!({}), json!({"applyEdit": true, "workspaceFolders": true})][draw(2)].clone();
	}
	if progress {
		p["capabilities"]["window"] = json!({"workDoneProgress": true});
	} else if chance(1, 2) {
		p["capabilities"]["window"] = [json!({}), json!({"workDoneProgress": false}), json!({"showDocument": {"support": true}}), json!(null)][draw(4)].clone();
	}
	if let Some(f) = folders {
		p["workspaceFolders"] = f.iter().map(|(u, n)| json!({"uri": u, "name": n})).collect();
	}
	if let Some(t) = trace {
		p["trace"] = json!(t);
	}
	p
}

fn cut(s: &str) -> String {
	let mut t: String = s.chars().take(300).collect();
	if t.len() < s.len() {
		t.push('…');
	}
	t
}
pub fn brief(v: &Value) -> String { cut(&v.to_string()) }

/// Decides what the client does about a request of the server.
fn answer(st: &mut Seen, at: usize, v: Value, p: Policy) {
	let (id, method, params) = (v["id"].clone(), v["method"].as_str().unwrap().to_string(), v["params"].clone());
	let mut fate = "answered";
	let hit = |n: usize, what: &'static str| n > 0 && fault(what, 1, n);
	let uri = params["uri"].as_str().unwrap_or("").to_string();
	let err = json!({"id": id, "error": {"code": -32001, "message": "not available"}});
	let mut a = match method.as_str() {
		"client/registerCapability" if p.refuse_register => {
			fate = "refused";
			err.clone()
		}
		"window/workDoneProgress/create" if p.refuse_progress => {
			fate = "refused";
			err.clone()
		}
		"p4analyzer/enumerateFolder" => {
			// as the extension does: the pattern is for paths below the folder
			match params["filePattern"].as_str() {
				Some(p) => json!({"id": id, "result": disk_list(&uri, p).into_iter().map(|u| json!({ "uri": u })).collect::<Vec<_>>()}),
				None => err.clone(),
			}
		}
		"p4analyzer/fileContents" => match disk_text(&uri) {
			Some(t) => json!({"id": id, "result": t}),
			None if chance(1, 2) => json!({"id": id, "result": null}),
			None => err.clone(),
		},
		_ => json!({"id": id, "result": null}),
	};
	let ours = method.starts_with("p4analyzer/");
	if ours && hit(p.error, "client answers with an error") {
		fate = "failed";
		a = err.clone();
	} else if ours && hit(p.bad_type, "client answers with the wrong type") {
		fate = "failed";
		a = json!({"id": id, "result": {"unexpected": 1}});
	} else if hit(p.never, "client never answers") {
		fate = "never";
	}
	let due = simrt::now_ns() + fault_pick(p.max_delay_ms + 1) as u64 * MS;
	if p.max_delay_ms > 0 {
		simrt::count_fault("delayed answer");
	}
	if hit(p.unknown, "client answers an unknown request") {
		let uid = [json!(id.as_i64().unwrap_or(0) + 1_000_000), json!(format!("{id}")), json!("nobody")][fault_pick(3)].clone();
		st.order += 1;
		let o = st.order;
		st.answers.push((simrt::now_ns(), o, json!({"id": uid, "result": "intruder"})));
	}
	if fate != "never" {
		st.order += 1;
		let o = st.order;
		st.answers.push((due, o, a.clone()));
		if hit(p.duplicate, "client answers twice") {
			st.order += 1;
			let o = st.order;
			let d = due + fault_pick(20) as u64 * MS;
			let again = if fault_pick(2) == 0 { a } else { err };
			st.answers.push((d, o, again));
		}
	}
	if method == "p4analyzer/fileContents" {
		probe("client file contents");
	}
	let _ = draw_range;
	st.requests.push(ServerReq { at, id, method, params, fate });
}
