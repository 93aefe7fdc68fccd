//! C12: the whole server process behind its standard streams. C13: the buffer driver. C18: the native file system.
mod buffer;
mod native;

use serde_json::{json, Value};
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, fault_pick, log, note, probe};
use simstd::env::{SimArgs, SimExe};
use simstd::io::{SimStdio, StreamFaults};
use simstd::process::ExitHook;
use simstd::simdisk::{self, DiskFaults};
use simstd::sync::{Arc, Condvar, Mutex};
use simstd::thread;
use simstd::time::Duration;
use std::io::ErrorKind;

fn main() {
	harness_main(&[
		Prop { id: "C12", main: c12, max_steps: 600_000 },
		Prop { id: "C13", main: buffer::c13, max_steps: 300_000 },
		Prop { id: "C18", main: native::c18, max_steps: 100_000 },
	]);
}

const MS: u64 = 1_000_000;
const PATIENCE: u64 = 900_000 * MS;
const EARLIER: &str = "2023-05-01T00:00:00.000000Z  INFO an earlier session\n";

fn frame(v: &Value) -> Vec<u8> {
	let mut v = v.clone();
	v["jsonrpc"] = json!("2.0");
	let body = v.to_string();
	let ty = if chance(1, 4) { "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" } else { "" };
	format!("{}Content-Length: {}\r\n\r\n{}", ty, body.len(), body).into_bytes()
}

/// The messages in what the process wrote, and what is left over.
fn parse(mut b: &[u8]) -> Result<(Vec<Value>, Vec<u8>), String> {
	let mut out = vec![];
	loop {
		let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok((out, b.to_vec())) };
		let head = std::str::from_utf8(&b[..h]).map_err(|_| "a header that is not text".to_string())?;
		let mut len = None;
		for l in head.split("\r\n") {
			let Some((k, v)) = l.split_once(": ") else { return Err(format!("not a header: {l:?}")) };
			match k {
				"Content-Length" => len = v.parse::<usize>().ok(),
				"Content-Type" => {}
				_ => return Err(format!("not a header: {l:?}")),
			}
		}
		let Some(n) = len else { return Err(format!("no length in {head:?}")) };
		if b.len() < h + 4 + n {
			return Ok((out, b.to_vec()));
		}
		let v: Value = serde_json::from_slice(&b[h + 4..h + 4 + n]).map_err(|e| format!("{e}"))?;
		if v["jsonrpc"] != "2.0" {
			return Err(format!("not a message: {v}"));
		}
		out.push(v);
		b = &b[h + 4 + n..];
	}
}

#[derive(Default)]
struct World {
	/// how the process ended: None while it runs, Some(None) when main returned, Some(Some(code)) after exit(code)
	ended: Option<Option<i32>>,
}

/// Asked for its version, or with arguments that it does not know, the process says so and ends.
fn no_session(mut args: Vec<String>) {
	let io = simrt::ext::<SimStdio>();
	let version = chance(1, 2);
	let extra: &[&str] = if version {
		[&["--version"][..], &["-v"]][draw(2)]
	} else {
		[&["--nonsense"][..], &["serve"], &["server", "server"], &["--stdio=1", "x"], &["-x"], &["--loglevel", "info", "--loglevel", "info", "--loglevel", "info"]][draw(6)]
	};
	if version {
		// anywhere before the command
		let at = if args.iter().any(|a| a == "--logpath") { 1 } else { draw_range(1, args.len().min(2)) };
		args.splice(at..at, extra.iter().map(|s| s.to_string()));
	} else {
		args.extend(extra.iter().map(|s| s.to_string()));
	}
	note(format!("{args:?}"));
	probe(if version { "asked for the version" } else { "unknown arguments" });
	*simrt::ext::<SimArgs>().0.lock().unwrap() = args.iter().map(|s| s.into()).collect();
	simrt::ext::<ExitHook>().set(Box::new(move |code| fail("wrong-exit", format!("the process called exit({code})"))));
	// a message that is nobody's business, and no end of the input
	io.feed(&frame(&json!({"id": 1, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}})));
	let ended = Arc::new((Mutex::new(false), Condvar::new()));
	let e = ended.clone();
	let p = thread::Builder::new().name("process".into()).spawn(move || {
		p4_main::main();
		simstd::io::flush_at_exit();
		*e.0.lock().unwrap() = true;
		e.1.notify_all();
	});
	let until = simrt::now_ns() + PATIENCE;
	while !*ended.0.lock().unwrap() && simrt::now_ns() < until {
		simrt::sleep_ns(50 * MS);
	}
	if !*ended.0.lock().unwrap() {
		fail("does-not-end", format!("the process is still running with {args:?}"));
	}
	let _ = p.unwrap().join();
	let out = String::from_utf8_lossy(&io.stdout_bytes()).into_owned();
	let err = String::from_utf8_lossy(&io.stderr_bytes()).into_owned();
	if out.contains("Content-Length") {
		fail("wrong-output", format!("the process serves with {args:?}: {out}"));
	}
	let ok = if version {
		let v = out.trim();
		v.starts_with(|c: char| c.is_ascii_digit()) && v.contains('.') && v.len() < 40 && v.lines().count() == 1
	} else {
		!(out.clone() + &err).trim().is_empty()
	};
	if !ok {
		fail("wrong-output", format!("with {args:?} the process says {out:?} {err:?}"));
	}
}

/// The process starts, serves, and ends.
fn c12() {
	let io = simrt::ext::<SimStdio>();
	// now and then, a long session, or messages far beyond any buffer
	let (long, large) = if chance(1, 150) { [(true, false), (false, true), (true, true)][draw(3)] } else { (false, false) };
	if long || large {
		probe(if large { "large messages" } else { "long session" });
		simrt::more_steps(6_000_000);
	}
	let faulty = chance(2, 3) && !large;
	if faulty {
		let f = || StreamFaults { frag: [0, 2, 4][draw(3)], eintr: [0, 5, 12][draw(3)] };
		io.set_faults(f(), f());
	}
	let disk = simdisk::disk();
	for i in 0..draw(3) {
		disk.put(&format!("/w/f{i}.p4"), format!("qa{i} zq{i}\n").as_bytes());
	}
	disk.put_dir("/w");
	let mut sound_disk = true;
	if chance(1, 3) {
		let write_error = [0, 5][draw(2)];
		sound_disk = write_error == 0;
		disk.set_faults(DiskFaults {
			slow: 3,
			slow_ms: 40,
			read_error: [0, 4][draw(2)],
			dir_error: [0, 4][draw(2)],
			write_error,
			short_write: [0, 4][draw(2)],
			short_read: 3,
			..Default::default()
		});
	}
	let mut args = vec!["p4-analyzer".to_string()];
	// where it logs, and from which level on
	let mut log_to: Option<(&str, &str)> = None;
	disk.put_dir("/logs");
	if chance(1, 3) {
		args.push("--logpath".into());
		let to = ["/logs", "/logs", "/nowhere", "/w/f0.p4"][draw(4)];
		args.push(to.into());
		log_to = Some((to, "debug"));
		if chance(1, 2) {
			args.push("--loglevel".into());
			let level = ["trace", "info", "error", "nonsense"][draw(4)];
			args.push(level.into());
			log_to = Some((to, level));
		}
		if chance(1, 4) {
			sound_disk = false;
			disk.set_capacity(Some(draw(3000)));
			simrt::count_fault("full disk");
		}
	}
	*simrt::ext::<SimExe>().0.lock().unwrap() = match draw(4) {
		0 => None,
		1 => Some(Err(ErrorKind::NotFound.into())),
		2 => Some(Ok("/".into())),
		_ => Some(Ok("/usr/local/bin/p4 \u{e4}.x".into())),
	};
	// the logs of earlier sessions, whatever the file is called
	if log_to.map_or(false, |l| l.0 == "/logs") && chance(1, 2) {
		for n in ["program", "p4-analyzer", "p4 \u{e4}"] {
			disk.put(&format!("/logs/{n}.log"), EARLIER.as_bytes());
		}
		probe("log of an earlier session");
	}
	let files_before: Vec<_> = disk.files();
	if chance(1, 3) {
		args.push("server".into());
		if chance(1, 2) {
			args.push("--stdio".into());
		}
	}
	if chance(1, 15) {
		return no_session(args);
	}
	let how = draw(7);
	let how_text = ["exit", "input ends", "input fails", "output breaks", "interrupt", "broken frame", "two interrupts, stalled client"][how];
	note(format!("{how_text}, {args:?}"));
	probe(how_text);
	*simrt::ext::<SimArgs>().0.lock().unwrap() = args.iter().map(|s| s.into()).collect();

	let w: Arc<(Mutex<World>, Condvar)> = Arc::new((Mutex::new(World::default()), Condvar::new()));
	let two = how == 6;
	simrt::ext::<ExitHook>().set(Box::new(move |code| {
		if !two || code != -1 {
			fail("wrong-exit", format!("the process called exit({code}) after {how_text}"));
		}
	}));
	let p = {
		let w = w.clone();
		thread::Builder::new()
			.name("process".into())
			.spawn(move || {
				p4_main::main();
				simstd::io::flush_at_exit();
				w.0.lock().unwrap().ended = Some(None);
				w.1.notify_all();
			})
			.unwrap()
	};

	// what the client writes
	let mut ids: Vec<Value> = vec![];
	let mut next = 0;
	let mut msgs: Vec<Vec<u8>> = vec![];
	let folders = chance(1, 2);
	let mut init = json!({"processId": null, "rootUri": null, "capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}}});
	// the value that traces have when the next message is processed, and whether there have to be and may be any
	let levels = ["off", "messages", "verbose"];
	let (mut level, mut must, mut may) = (0, vec![], [true, false, false]);
	if chance(1, 2) {
		level = draw(3);
		init["trace"] = json!(levels[level]);
	}
	if folders {
		init["workspaceFolders"] = json!([{"uri": "file:///w/", "name": "w"}]);
	}
	let mut req = |m: &str, p: Value, ids: &mut Vec<Value>| {
		next += 1;
		let id = if chance(1, 4) { json!(format!("r{next}")) } else { json!(next) };
		ids.push(id.clone());
		let mut v = json!({"id": id, "method": m});
		if !p.is_null() {
			v["params"] = p;
		}
		frame(&v)
	};
	let begun = chance(7, 8);
	if begun {
		msgs.push(req("initialize", init, &mut ids));
		msgs.push(frame(&json!({"method": "initialized", "params": {}})));
	}
	level *= begun as usize;
	may[level] = true;
	let mut logged = false;
	for _ in 0..if long { draw_range(40, 200) } else { draw(10) } {
		msgs.push(match draw(if large { 8 } else { 6 }) {
			0 => {
				logged = begun;
				let r = req("no/such", Value::Null, &mut ids);
				if level > 0 {
					must.extend(ids.last().cloned());
				}
				r
			}
			1 => req("textDocument/completion", json!({"textDocument": {"uri": (["file:///w/f0.p4", "file:///w/x.p4"][draw(2)])}, "position": {"line": 0, "character": 0}}), &mut ids),
			2 => req("textDocument/hover", json!({"textDocument": {"uri": "file:///w/é😀.p4"}, "position": {"line": 0, "character": 0}}), &mut ids),
			3 => frame(&json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": "file:///w/x.p4", "languageId": "p4", "version": 1, "text": "qé 😀 zq\n"}}})),
			4 => frame(&json!({"method": "workspace/didChangeWatchedFiles", "params": {"changes": [{"uri": "file:///w/f0.p4", "type": 2}]}})),
			6 | 7 => {
				let t = ["qé 😀 zq\n", "漢 ", "zz\r\n"][draw(3)].repeat(draw_range(500, 30_000));
				frame(&json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": "file:///w/x.p4", "languageId": "p4", "version": 1, "text": t}}}))
			}
			_ => {
				let l = draw(3);
				if begun {
					level = l;
					may[l] = true;
				}
				frame(&json!({"method": "$/setTrace", "params": {"value": (levels[l])}}))
			}
		});
	}
	if how == 0 && chance(1, 2) && begun {
		msgs.push(req("shutdown", Value::Null, &mut ids));
	}

	// the client: reads, and answers what it is asked
	let stalled = two || fault("client stalls", 1, 8);
	if stalled {
		io.set_window(Some([1, 40, 400][fault_pick(3)]));
	}
	let never_reads = two;
	let reader = {
		let (io, w) = (io.clone(), w.clone());
		thread::Builder::new()
			.name("client".into())
			.spawn(move || {
				let (mut seen, mut done, mut stalls) = (vec![], 0usize, 0);
				loop {
					if never_reads {
						return;
					}
					if stalled {
						// for a while
						stalls += 1;
						if stalls < 40 {
							simrt::sleep_ns(fault_pick(400) as u64 * MS);
						} else {
							io.set_window(None);
						}
					}
					let b = io.take_stdout(seen.len(), Some(simrt::now_ns() + 200 * MS));
					seen.extend_from_slice(&b);
					if b.is_empty() && w.0.lock().unwrap().ended.is_some() {
						return;
					}
					if let Ok((v, _)) = parse(&seen) {
						for m in v.iter().skip(done) {
							if m.get("method").is_some() && m.get("id").is_some() {
								io.feed(&frame(&json!({"id": m["id"], "result": null})));
							}
						}
						done = v.len();
					}
				}
			})
			.unwrap()
	};
	drop(reader);

	let cut = if how == 3 || how == 4 || how == 6 { draw(msgs.len() + 1) } else { msgs.len() };
	for m in msgs.iter().take(cut) {
		// the answers of the client may come between two messages, but not within one
		io.feed(m);
		if chance(1, 4) {
			simrt::sleep_ns(draw(30) as u64 * MS);
		}
	}
	let sent = msgs[..cut].concat().len() as u64;
	let mut broke = false;
	match how {
		0 => io.feed(&frame(&json!({"method": "exit"}))),
		1 => {
			settle(&io, sent);
			if chance(1, 3) {
				// the last message is not complete
				let f = frame(&json!({"id": 99_999, "method": "no/such"}));
				io.feed(&f[..draw(f.len())]);
				simrt::count_fault("input ends within a message");
			}
			io.close_stdin();
		}
		2 => {
			settle(&io, sent);
			io.fail_stdin([ErrorKind::Other, ErrorKind::ConnectionReset][draw(2)]);
			simrt::count_fault("input fails");
		}
		3 => {
			io.break_stdout(draw(600), [ErrorKind::BrokenPipe, ErrorKind::Other][draw(2)]);
			simrt::count_fault("output breaks");
			broke = true;
			simrt::sleep_ns(draw(2000) as u64 * MS);
			if chance(1, 2) {
				// the client goes on; that nothing reaches it any more has to end the process
				probe("goes on");
				for m in &msgs[cut..] {
					io.feed(m);
				}
				for k in 0..150 {
					if w.0.lock().unwrap().ended.is_some() {
						break;
					}
					ids.push(json!(100_000 + k));
					io.feed(&frame(&json!({"id": (100_000 + k), "method": "no/such"})));
					// (longer than a client that stalls does)
					simrt::sleep_ns(if k < 20 { draw(100) } else { 300 } as u64 * MS);
				}
				// a server that waits for an answer to what has not reached the client waits as long as there may be one
				let asked = parse(&io.stdout_bytes()).map_or(false, |(v, _)| v.iter().any(|m| m.get("method").is_some() && m.get("id").is_some()));
				if begun && !asked {
					io.close_stdin();
				}
			} else {
				io.close_stdin();
			}
		}
		4 => {
			simrt::count_fault("interrupt");
			while !ctrlc::sim_raise() {
				simrt::sleep_ns(MS);
			}
		}
		5 => {
			settle(&io, sent);
			simrt::count_fault("broken frame");
			let k = draw(5);
			io.feed([&b"Content-Length: x\r\n\r\n{}"[..], b"hello\r\n\r\n", b"\xff\xfe\r\n\r\n", b"Content-Length: 4\r\n\r\nnull", b"Content-Length: 5\r\n\r\n{\"a\":"][k]);
			simrt::sleep_ns(100 * MS);
			// after a broken header there is no next message, whether the input ends or not
			if k >= 3 || chance(1, 2) {
				io.close_stdin();
			}
		}
		_ => {
			simrt::count_fault("interrupt");
			while !ctrlc::sim_raise() {
				simrt::sleep_ns(MS);
			}
			simrt::sleep_ns(draw(50) as u64 * MS);
			// the second one ends it whatever it waits for; only if it has not ended by then
			let ended = || w.0.lock().unwrap().ended.is_some();
			if !ended() {
				ctrlc::sim_raise();
				simrt::sleep_ns(10_000 * MS);
				if !ended() {
					fail("did-not-stop", "the process is still there after a second interrupt".into());
				}
			}
		}
	}

	let end = simrt::now_ns() + PATIENCE;
	let mut g = w.0.lock().unwrap();
	while g.ended.is_none() {
		let now = simrt::now_ns();
		if now >= end {
			drop(g);
			fail("did-not-stop", format!("the process is still there after: {how_text}"));
		}
		g = w.1.wait_timeout(g, Duration::from_nanos(end - now)).unwrap().0;
	}
	drop(g);
	let _ = p.join();
	let out = io.stdout_bytes();
	log(format!("{} bytes on stdout", out.len()));
	let (got, rest) = match parse(&out) {
		Ok(x) => x,
		Err(e) => fail("not-the-protocol", format!("on stdout: {e} (after {how_text})")),
	};
	let rest = String::from_utf8_lossy(&rest).into_owned();
	let partial = broke || (two && stalled);
	if !rest.is_empty() && !partial {
		fail("not-the-protocol", format!("left over on stdout after {how_text}: {rest:?}"));
	}
	if let Some(m) = got.iter().find(|m| m.get("method").is_none() && m.get("result").is_some() == m.get("error").is_some()) {
		fail("not-the-protocol", format!("a response with neither or both of result and error: {m}"));
	}
	let resp: Vec<Value> = got.iter().filter(|m| m.get("method").is_none()).map(|m| m["id"].clone()).collect();
	// a session may end before everything has been answered when it breaks, but there is nothing out of order
	let complete = how == 0 || how == 1 || how == 2 || how == 5;
	if resp != ids[..resp.len().min(ids.len())] || (complete && resp.len() != ids.len()) {
		fail("wrong-responses", format!("requests {}, responses {} (after {how_text})", json!(ids), json!(resp)));
	}
	// what it logs goes to the client as far as the client wants it
	let traces: Vec<&Value> = got.iter().filter(|m| m["method"] == "$/logTrace").map(|m| &m["params"]).collect();
	for t in &traces {
		let kind = if t.get("verbose").map_or(false, |v| !v.is_null()) { 2 } else { 1 };
		if !may[kind] || t["message"].as_str().map_or(true, |m| m.is_empty()) {
			fail("wrong-trace", format!("{t}, but the values are {:?}", (0..3).filter(|l| may[*l]).map(|l| levels[l]).collect::<Vec<_>>()));
		}
	}
	// (a client that does not answer the first request keeps the server from getting ready)
	if complete && got.iter().any(|m| m["error"]["code"] == -32603 && must.contains(&m["id"])) {
		probe("traced");
		if traces.is_empty() {
			fail("wrong-trace", format!("no trace messages (after {how_text})"));
		}
	}
	// and to the log, if there is one
	let files = disk.files();
	let may_log = |f: &std::path::Path| log_to.map_or(false, |l| l.0 == "/logs") && f.starts_with("/logs");
	let other: Vec<_> = files.iter().filter(|f| !files_before.contains(f) && !may_log(&f.0)).map(|f| &f.0).collect();
	if !other.is_empty() || files_before.iter().any(|b| !files.iter().any(|f| f.0 == b.0 && (f.1 == b.1 || may_log(&f.0) && f.1.starts_with(&b.1)))) {
		fail("wrong-log", format!("files changed on disk: {other:?}"));
	}
	// what this session added
	let earlier = |p: &std::path::Path| files_before.iter().find(|b| b.0 == p).map_or(0, |b| b.1.len());
	let logs: Vec<_> = files.iter().filter(|f| f.0.starts_with("/logs") && (earlier(&f.0) == 0 || earlier(&f.0) < f.1.len())).map(|f| (f.0.clone(), f.1[earlier(&f.0)..].to_vec())).collect();
	if let (Some(("/logs", at)), true) = (log_to, sound_disk) {
		let ext = logs.iter().all(|f| f.0.extension().map_or(false, |e| e == "log"));
		if logs.len() > 1 || !ext {
			fail("wrong-log", format!("{:?}", logs.iter().map(|f| &f.0).collect::<Vec<_>>()));
		}
		let text = logs.iter().map(|f| String::from_utf8_lossy(&f.1).into_owned()).collect::<String>();
		if complete && logged && at != "error" {
			probe("logged");
			if text.is_empty() {
				fail("wrong-log", format!("nothing was logged from {at} on (after {how_text})"));
			}
		}
		let below: &[&str] = match at {
			"error" => &["INFO", "DEBUG", "TRACE"],
			"info" => &["DEBUG", "TRACE"],
			"trace" => &[],
			_ => &["TRACE"],
		};
		if let Some(l) = text.lines().find(|l| l.split(|c: char| !c.is_ascii_uppercase()).find(|w| w.len() > 3).map_or(false, |w| below.contains(&w))) {
			fail("wrong-log", format!("{l:?} at {at}"));
		}
	}
}

/// All that was sent has been read.
fn settle(io: &SimStdio, sent: u64) {
	let end = simrt::now_ns() + PATIENCE;
	while io.stdin_consumed() < sent && simrt::now_ns() < end {
		simrt::sleep_ns(MS);
	}
}
