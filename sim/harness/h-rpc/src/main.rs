//! C04: JSON-RPC framing over a simulated byte pipe that fragments, interrupts, stalls, breaks and ends anywhere.
use rpc::json_rpc::message::{Message, Notification, Request, Response};
use rpc::json_rpc::RequestId;
use serde_json::{json, Map, Value};
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, fault_pick, log, probe};
use simstd::sync::{Condvar, Mutex};
use simstd::thread;
use std::collections::VecDeque;
use std::io::{self, BufRead, BufReader, BufWriter, ErrorKind, LineWriter, Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

fn main() {
	harness_main(&[Prop { id: "C04", main: c04, max_steps: 200_000 }]);
}

// ---------------------------------------------------------------- the pipe

struct PipeState {
	data: VecDeque<u8>,
	all: Vec<u8>,
	eof: bool,
	read_error: Option<ErrorKind>,
	/// bytes still accepted before writes fail
	accepts: Option<(usize, ErrorKind)>,
	cap: usize,
	faulty: bool,
	/// how many bytes a short read or write moves at most
	grain: usize,
}
struct Pipe {
	st: Mutex<PipeState>,
	cv: Condvar,
}
impl Pipe {
	fn new(cap: usize, faulty: bool) -> Arc<Pipe> {
		Arc::new(Pipe {
			st: Mutex::new(PipeState { data: VecDeque::new(), all: vec![], eof: false, read_error: None, accepts: None, cap: if big() { cap.max(3000) } else { cap }, faulty, grain: if big() { 20_000 } else { 9 } }),
			cv: Condvar::new(),
		})
	}
	fn close(&self) {
		self.st.lock().unwrap().eof = true;
		self.cv.notify_all();
	}
	fn fail_reads(&self, k: ErrorKind) {
		self.st.lock().unwrap().read_error = Some(k);
		self.cv.notify_all();
	}
	fn total(&self) -> usize { self.st.lock().unwrap().all.len() }
}
struct Rd(Arc<Pipe>);
impl Read for Rd {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		let mut g = self.0.st.lock().unwrap();
		if g.faulty && fault("read-interrupted", 1, 9) {
			return Err(ErrorKind::Interrupted.into());
		}
		loop {
			if !g.data.is_empty() {
				let mut n = b.len().min(g.data.len());
				if g.faulty && n > 1 && fault("short-read", 1, 2) {
					n = 1 + fault_pick(n.min(g.grain));
				}
				for x in b.iter_mut().take(n) {
					*x = g.data.pop_front().unwrap();
				}
				self.0.cv.notify_all();
				return Ok(n);
			}
			if let Some(k) = g.read_error {
				simrt::count_fault("read-error");
				return Err(k.into());
			}
			if g.eof || b.is_empty() {
				return Ok(0);
			}
			g = self.0.cv.wait(g).unwrap();
		}
	}
}
#[derive(Clone)]
struct Wr(Arc<Pipe>);
impl Write for Wr {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		let mut g = self.0.st.lock().unwrap();
		if b.is_empty() {
			return Ok(0);
		}
		if g.faulty && fault("write-interrupted", 1, 9) {
			return Err(ErrorKind::Interrupted.into());
		}
		while g.data.len() >= g.cap {
			simrt::count_fault("stalled-reader");
			g = self.0.cv.wait(g).unwrap();
		}
		let mut n = b.len().min(g.cap - g.data.len());
		if g.faulty && n > 1 && fault("short-write", 1, 2) {
			n = 1 + fault_pick(n.min(g.grain));
		}
		if let Some((left, k)) = g.accepts {
			if left == 0 {
				simrt::count_fault("write-error");
				if k == ErrorKind::WriteZero {
					return Ok(0);
				}
				return Err(k.into());
			}
			n = n.min(left);
			g.accepts = Some((left - n, k));
		}
		g.data.extend(&b[..n]);
		g.all.extend_from_slice(&b[..n]);
		drop(g);
		self.0.cv.notify_all();
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

// ---------------------------------------------------------------- workload

const PIECES: &[&str] = &[
	"a", "initialize", "é", "漢字", "😀", "\r\n", "\n", "Content-Length: 7\r\n\r\n", "\"", "\\", "\u{0}", "\u{7f}", "{", "}", "[", " ", "\t", "/", "\u{2028}", "e\u{301}",
	"$/x", "\u{feff}", "jsonrpc",
];
fn text() -> String {
	let n = draw(6);
	let mut s = String::new();
	for _ in 0..n {
		s.push_str(PIECES[draw(PIECES.len())]);
	}
	if chance(1, 12) {
		s = s.repeat(draw_range(1, 40));
	}
	s
}
fn value(depth: usize) -> Value {
	match draw(if depth == 0 { 6 } else { 8 }) {
		0 => Value::Null,
		1 => json!(chance(1, 2)),
		2 => json!(draw(1000) as i64 - 500),
		3 => json!([i64::MAX, i64::MIN, 0, -1, 1 << 40][draw(5)]),
		4 => json!(draw(1000) as f64 / 8.0),
		5 => json!(text()),
		6 => Value::Array((0..draw(4)).map(|_| value(depth - 1)).collect()),
		_ => {
			let mut m = Map::new();
			for _ in 0..draw(4) {
				m.insert(text(), value(depth - 1));
			}
			Value::Object(m)
		}
	}
}
fn params() -> Value {
	match draw(4) {
		0 => Value::Null,
		1 => Value::Array((0..draw(4)).map(|_| value(2)).collect()),
		2 => {
			if big() && chance(1, 2) {
				// well past any buffer there is on the way
				let n = [draw_range(400, 2000), draw_range(2000, 12_000), draw_range(12_000, 60_000)][draw(3)];
				let s: String = ["x漢\r\n", "é\"\\", "{}\u{0}", "😀"][draw(4)].repeat(n);
				return json!({ "text": format!("{}{s}", "y".repeat(draw(4))) });
			}
			let n = draw_range(60, 400);
			json!({"text": "x漢\r\n".repeat(n)})
		}
		_ => {
			let mut m = Map::new();
			for _ in 0..draw(4) {
				m.insert(text(), value(2));
			}
			Value::Object(m)
		}
	}
}
fn id() -> (RequestId, Value) {
	match draw(4) {
		0 => {
			let s = text();
			(RequestId::from(s.clone()), json!(s))
		}
		1 => {
			let s = draw(200).to_string();
			(RequestId::from(s.clone()), json!(s))
		}
		2 => {
			let n = [i32::MAX, i32::MIN, -1, 0][draw(4)];
			(RequestId::from(n), json!(n))
		}
		_ => {
			let n = draw(200) as i32;
			(RequestId::from(n), json!(n))
		}
	}
}
fn method() -> String {
	["initialize", "textDocument/didChange", "$/progress", "exit", "x"][draw(5)].to_string() + &(if chance(1, 6) { text() } else { String::new() })
}
/// A message and what it must look like on the wire.
fn message() -> (Message, Value) {
	match draw(5) {
		0 | 1 => {
			let (i, iv) = id();
			let (m, p) = (method(), params());
			let mut v = json!({"jsonrpc": "2.0", "id": iv, "method": m});
			if !p.is_null() {
				v["params"] = p.clone();
			}
			(Message::Request(Request::new(i, m, p)), v)
		}
		2 => {
			let (i, iv) = id();
			let r = value(2);
			(Message::Response(Response::new(i, r.clone())), json!({"jsonrpc": "2.0", "id": iv, "result": r}))
		}
		3 => {
			let (i, iv) = id();
			let (c, t) = (-32000 - draw(800) as i32, text());
			(Message::Response(Response::new_error(i, c, &t)), json!({"jsonrpc": "2.0", "id": iv, "error": {"code": c, "message": t}}))
		}
		_ => {
			const NAMES: &[&str] = &["initialized", "exit", "textDocument/didOpen", "é漢"];
			let n = NAMES[draw(NAMES.len())];
			let p = params();
			let mut v = json!({"jsonrpc": "2.0", "method": n});
			if !p.is_null() {
				v["params"] = p.clone();
			}
			(Message::Notification(Notification::new(n, p)), v)
		}
	}
}

/// What a decoded message says, in a form where an absent member and null are the same.
fn meaning(m: &Message) -> Value {
	fn opt<T: serde_json::value::Index>(_: T) {}
	let _ = opt::<usize>;
	let v = match m {
		Message::Request(r) => json!({"kind": "request", "id": serde_json::to_value(&r.id).unwrap(), "method": r.method, "params": r.params}),
		Message::Response(r) => json!({"kind": "response", "id": serde_json::to_value(&r.id).unwrap(), "result": r.result,
			"error": r.error.as_ref().map(|e| json!({"code": e.code, "message": e.message, "data": e.data}))}),
		Message::Notification(n) => json!({"kind": "notification", "method": n.method, "params": n.params}),
	};
	strip(v)
}
fn meaning_of_wire(w: &Value) -> Value {
	let mut v = w.clone();
	let o = v.as_object_mut().unwrap();
	o.remove("jsonrpc");
	let kind = match (o.contains_key("id"), o.contains_key("method")) {
		(true, true) => "request",
		(true, false) => "response",
		_ => "notification",
	};
	o.insert("kind".into(), json!(kind));
	strip(v)
}
/// drops members with null, at the top only
fn strip(mut v: Value) -> Value {
	if let Some(o) = v.as_object_mut() {
		o.retain(|_, x| !x.is_null());
		if let Some(e) = o.get_mut("error").and_then(|e| e.as_object_mut()) {
			e.retain(|_, x| !x.is_null());
		}
	}
	v
}

/// An independent reading of the wire format.
fn decode(mut b: &[u8]) -> Result<Vec<Value>, String> {
	let mut out = vec![];
	while !b.is_empty() {
		let mut len = None;
		loop {
			let e = b.windows(2).position(|w| w == b"\r\n").ok_or("header without CRLF")?;
			let line = std::str::from_utf8(&b[..e]).map_err(|_| "header is not text")?.to_string();
			b = &b[e + 2..];
			if line.is_empty() {
				break;
			}
			let (k, v) = line.split_once(':').ok_or(format!("header without colon: {line:?}"))?;
			if k.eq_ignore_ascii_case("content-length") {
				len = Some(v.trim().parse::<usize>().map_err(|_| format!("bad length {v:?}"))?);
			}
		}
		let n = len.ok_or("no Content-Length")?;
		if b.len() < n {
			return Err(format!("frame claims {n} bytes, {} follow", b.len()));
		}
		out.push(serde_json::from_slice(&b[..n]).map_err(|e| format!("body is not JSON: {e}"))?);
		b = &b[n..];
	}
	Ok(out)
}

/// A frame as some other implementation may write it.
fn foreign_frame(w: &Value) -> Vec<u8> {
	let body = match draw(4) {
		0 => serde_json::to_string_pretty(w).unwrap(),
		1 => format!(" {}\n", serde_json::to_string(w).unwrap()),
		2 => {
			// members in another order
			let o = w.as_object().unwrap();
			let mut m: Vec<String> = o.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
			m.reverse();
			format!("{{{}}}", m.join(", "))
		}
		_ => {
			// non-ASCII escaped
			let mut s = String::new();
			for c in serde_json::to_string(w).unwrap().chars() {
				if c.is_ascii() {
					s.push(c)
				} else {
					let mut u = [0u16; 2];
					for x in c.encode_utf16(&mut u) {
						s.push_str(&format!("\\u{:04x}", x));
					}
				}
			}
			s
		}
	};
	let mut h = vec![format!("Content-Length: {}", body.len())];
	if chance(1, 2) {
		h.push("Content-Type: application/vscode-jsonrpc; charset=utf-8".into());
	}
	if chance(1, 6) {
		h.push("X-Extra: a: b: c".into());
	}
	if chance(1, 2) {
		h.reverse();
	}
	format!("{}\r\n\r\n{}", h.join("\r\n"), body).into_bytes()
}

/// One read, catching a panic of the code under test.
fn read(r: &mut BufReader<Rd>) -> io::Result<Option<Message>> { Message::read(r) }

fn reader(p: &Arc<Pipe>) -> BufReader<Rd> {
	let n = if big() { [64, 512, 8192, 100_000][draw(4)] } else { [1, 2, 3, 5, 8, 16, 64, 8192][draw(8)] };
	BufReader::with_capacity(n, Rd(p.clone()))
}

fn expect(got: &Message, want: &Value, k: usize) {
	let (a, b) = (meaning(got), meaning_of_wire(want));
	if a != b {
		fail("message changed", format!("message {k}: sent {b}, read {a}"));
	}
}

/// Whether this run has messages, or streams, far larger than the usual.
#[derive(Default)]
struct Size(AtomicBool);
fn big() -> bool { simrt::ext::<Size>().0.load(Ordering::Relaxed) }

/// How many messages a stream has.
fn count(lo: usize, hi: usize) -> usize {
	let n = draw_range(lo, hi);
	if big() && chance(1, 3) {
		probe("long stream");
		return draw_range(60, 300);
	}
	n
}

fn c04() {
	if chance(1, 80) {
		probe("large");
		simrt::more_steps(3_000_000);
		simrt::ext::<Size>().0.store(true, Ordering::Relaxed);
	}
	match draw(8) {
		0 | 1 => round_trip(),
		2 => peer_writes(),
		3 => cut_anywhere(),
		4 => malformed(),
		5 => write_failure(),
		6 => ping_pong(),
		_ => garbage(),
	}
}

enum Out {
	Plain(Wr),
	Line(LineWriter<Wr>),
	Buf(BufWriter<Wr>),
}
impl Out {
	fn new(p: &Arc<Pipe>) -> Out {
		match draw(3) {
			0 => Out::Plain(Wr(p.clone())),
			1 => Out::Line(LineWriter::with_capacity(draw_range(4, 64), Wr(p.clone()))),
			_ => Out::Buf(BufWriter::with_capacity(draw_range(4, 64), Wr(p.clone()))),
		}
	}
	fn put(&mut self, m: Message) -> io::Result<()> {
		match self {
			Out::Plain(w) => m.write(w),
			Out::Line(w) => m.write(w),
			Out::Buf(w) => m.write(w),
		}
	}
}

/// What is written is what is read, in order, then the end; and every message is out when its write returns.
fn round_trip() {
	let n = count(0, 6);
	let ms: Vec<(Message, Value)> = (0..n).map(|_| message()).collect();
	let cap = [1, 3, 10, 100, 100_000][draw(5)];
	let p = Pipe::new(cap, chance(3, 4));
	simrt::note(format!("round trip of {n} messages through a pipe of {cap} bytes"));
	probe("round trip");
	let want: Vec<Value> = ms.iter().map(|m| m.1.clone()).collect();
	let p2 = p.clone();
	let w = thread::spawn(move || {
		let mut o = Out::new(&p2);
		for (k, (m, v)) in ms.into_iter().enumerate() {
			let before = p2.total();
			if let Err(e) = o.put(m) {
				fail("write failed", format!("message {k}: {e}"));
			}
			log(format!("wrote {k}"));
			let out = p2.st.lock().unwrap().all[before..].to_vec();
			match decode(&out) {
				Ok(f) if f.len() == 1 && f[0] == v => {}
				Ok(f) => fail("wrong bytes on the wire", format!("message {k} is {v}, the wire carries {} frames: {:?}", f.len(), f)),
				Err(e) => fail("wrong bytes on the wire", format!("message {k}: {e}: {:?}", String::from_utf8_lossy(&out))),
			}
		}
		p2.close();
	});
	let p3 = p.clone();
	let r = thread::spawn(move || {
		let mut r = reader(&p3);
		for (k, v) in want.iter().enumerate() {
			match read(&mut r) {
				Ok(Some(m)) => expect(&m, v, k),
				Ok(None) => fail("message lost", format!("end of stream instead of message {k} of {}", want.len())),
				Err(e) => fail("read failed", format!("message {k}: {e}")),
			}
			log(format!("read {k}"));
		}
		match read(&mut r) {
			Ok(None) => {}
			Ok(Some(m)) => fail("message invented", format!("{m:?} after the last")),
			Err(e) => fail("no clean end", format!("{e}")),
		}
	});
	let _ = w.join();
	let _ = r.join();
}

/// The next message only comes after the previous one has been read: a reader must not wait for more than the frame.
fn ping_pong() {
	let n = count(1, 5);
	let ms: Vec<(Message, Value)> = (0..n).map(|_| message()).collect();
	let p = Pipe::new(1 << 40, chance(1, 2));
	simrt::note(format!("{n} messages, each sent once the previous one arrived"));
	probe("ping pong");
	let mut r = reader(&p);
	let go = Arc::new((Mutex::new(0usize), Condvar::new()));
	let (p2, go2) = (p.clone(), go.clone());
	let vs: Vec<Value> = ms.iter().map(|m| m.1.clone()).collect();
	let w = thread::spawn(move || {
		for (k, (_, v)) in ms.into_iter().enumerate() {
			let mut g = go2.0.lock().unwrap();
			while *g < k {
				g = go2.1.wait(g).unwrap();
			}
			drop(g);
			let f = foreign_frame(&v);
			let _ = Wr(p2.clone()).write_all(&f);
		}
	});
	for (k, v) in vs.iter().enumerate() {
		match read(&mut r) {
			Ok(Some(m)) => expect(&m, v, k),
			o => fail("message lost", format!("{o:?} instead of message {k}")),
		}
		*go.0.lock().unwrap() = k + 1;
		go.1.notify_all();
	}
	let _ = w.join();
}

fn feed_slowly(p: Arc<Pipe>, bytes: Vec<u8>, end: Option<ErrorKind>) -> thread::JoinHandle<()> {
	thread::spawn(move || {
		let mut at = 0;
		while at < bytes.len() {
			let n = (1 + draw(if big() { 20_000 } else { 60 })).min(bytes.len() - at);
			let _ = Wr(p.clone()).write_all(&bytes[at..at + n]);
			at += n;
			if chance(1, 3) {
				simrt::sleep_ns(1000);
			}
		}
		match end {
			Some(k) => p.fail_reads(k),
			None => p.close(),
		}
	})
}

fn peer_writes() {
	let n = count(1, 6);
	let vs: Vec<Value> = (0..n).map(|_| message().1).collect();
	simrt::note(format!("{n} messages from another implementation"));
	probe("peer frames");
	let p = Pipe::new(1 << 40, chance(3, 4));
	let bytes: Vec<u8> = vs.iter().flat_map(foreign_frame).collect();
	let w = feed_slowly(p.clone(), bytes, None);
	let mut r = reader(&p);
	for (k, v) in vs.iter().enumerate() {
		match read(&mut r) {
			Ok(Some(m)) => expect(&m, v, k),
			o => fail("message lost", format!("{o:?} instead of message {k}")),
		}
	}
	match read(&mut r) {
		Ok(None) => {}
		o => fail("no clean end", format!("{o:?}")),
	}
	let _ = w.join();
}

/// The stream ends, or breaks, at any byte.
fn cut_anywhere() {
	let n = draw_range(1, 4);
	let vs: Vec<Value> = (0..n).map(|_| message().1).collect();
	let mut bytes = vec![];
	let mut ends = vec![];
	for v in &vs {
		bytes.extend(foreign_frame(v));
		ends.push(bytes.len());
	}
	let cut = fault_pick(bytes.len() + 1);
	simrt::count_fault("stream-cut");
	let err = if fault("stream-reset", 1, 3) { Some([ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::Other][fault_pick(3)]) } else { None };
	simrt::note(format!("{n} messages, {} bytes, cut after {cut}, {err:?}", bytes.len()));
	probe("cut");
	let whole = ends.iter().filter(|e| **e <= cut).count();
	let boundary = cut == 0 || ends.contains(&cut);
	let p = Pipe::new(1 << 40, chance(1, 2));
	let w = feed_slowly(p.clone(), bytes[..cut].to_vec(), err);
	let mut r = reader(&p);
	for (k, v) in vs.iter().enumerate().take(whole) {
		match read(&mut r) {
			Ok(Some(m)) => expect(&m, v, k),
			o => fail("message before the cut lost", format!("{o:?} instead of message {k}")),
		}
	}
	match (read(&mut r), err) {
		(Ok(Some(m)), _) => fail("message invented from a cut stream", format!("{m:?}, cut after {cut} of {} bytes", bytes.len())),
		(Ok(None), Some(_)) => fail("transport failure taken for the end", format!("cut after {cut} of {} bytes with {err:?}", bytes.len())),
		(Err(e), None) if boundary => fail("no clean end", format!("{e}")),
		_ => {}
	}
	let _ = w.join();
}

fn frame(len: &str, body: &[u8]) -> Vec<u8> {
	let mut v = format!("Content-Length: {len}\r\n\r\n").into_bytes();
	v.extend_from_slice(body);
	v
}

/// A malformed frame is an error, not a message and not a crash.
fn malformed() {
	probe("malformed");
	let good: Vec<Value> = (0..draw(3)).map(|_| message().1).collect();
	let mut bytes: Vec<u8> = good.iter().flat_map(foreign_frame).collect();
	let v = message().1;
	let body = v.to_string().into_bytes();
	// (the frame, whether the next frame can still be found)
	let kind = draw(15);
	let (bad, resync): (Vec<u8>, bool) = match kind {
		0 => (frame("x", &body), false),
		1 => (frame("-1", &body), false),
		2 => (frame("", &body), false),
		3 => (frame("184467440737095516160", &body), false),
		4 => (frame(["18446744073709551615", "9223372036854775808"][draw(2)], &body), false),
		5 => (format!("Content-Type: x\r\n\r\n{v}").into_bytes(), false),
		6 => {
			let b = b"{\"jsonrpc\":\"2.0\",\"method\":\"\xff\xfe\"}";
			(frame(&b.len().to_string(), b), true)
		}
		7 => {
			let b = [&b"{"[..], b"[]", b"42", b"{}", b"null", b"\"x\"", b"{\"jsonrpc\":\"2.0\"}", b"", b"{\"method\":5}", b"[[[["][draw(10)];
			(frame(&b.len().to_string(), b), true)
		}
		8 => {
			// an otherwise good body that has lost its last byte
			let b = &body[..body.len() - 1];
			(frame(&b.len().to_string(), b), true)
		}
		9 => (format!("Content-Length {}\r\n\r\n{v}", body.len()).into_bytes(), false),
		10 => (format!("Content-Length: {}\n\n{v}", body.len()).into_bytes(), false),
		11 => (frame(&format!("{}: x", body.len()), &body), false),
		12 => (frame(&format!("{}, {}", body.len(), body.len()), &body), false),
		13 => (format!("Content-Length: {}\r\n{v}", body.len()).into_bytes(), false),
		_ => {
			// two messages where one is announced
			let b = format!("{v}{v}").into_bytes();
			(frame(&b.len().to_string(), &b), true)
		}
	};
	simrt::count_fault("malformed-frame");
	simrt::note(format!("{} messages and then a malformed frame of kind {kind}", good.len()));
	bytes.extend(bad);
	let next = message().1;
	if resync {
		bytes.extend(foreign_frame(&next));
	}
	let p = Pipe::new(1 << 40, chance(1, 2));
	let w = feed_slowly(p.clone(), bytes, None);
	let mut r = reader(&p);
	for (k, v) in good.iter().enumerate() {
		match read(&mut r) {
			Ok(Some(m)) => expect(&m, v, k),
			o => fail("message before a malformed frame lost", format!("{o:?} instead of message {k}")),
		}
	}
	match read(&mut r) {
		Err(_) => {}
		o => fail("malformed frame accepted", format!("kind {kind}: {o:?}")),
	}
	if resync {
		match read(&mut r) {
			Ok(Some(m)) => expect(&m, &next, good.len() + 1),
			o => fail("message after a bad body lost", format!("kind {kind}: {o:?}")),
		}
		match read(&mut r) {
			Ok(None) => {}
			o => fail("no clean end", format!("{o:?}")),
		}
	}
	let _ = w.join();
}

/// The peer stops reading for good: every write up to then is whole, the failing one says so.
fn write_failure() {
	let n = draw_range(1, 5);
	let ms: Vec<(Message, Value)> = (0..n).map(|_| message()).collect();
	let p = Pipe::new(1 << 40, chance(1, 2));
	let size: usize = ms.iter().map(|m| m.1.to_string().len() + 24).sum();
	let left = fault_pick(size + 1);
	let k = [ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::ConnectionReset, ErrorKind::Other][fault_pick(4)];
	p.st.lock().unwrap().accepts = Some((left, k));
	simrt::note(format!("{n} messages, the pipe accepts {left} bytes and then {k:?}"));
	probe("write failure");
	let mut o = Wr(p.clone());
	let mut ok: Vec<Value> = vec![];
	for (m, v) in ms {
		match m.write(&mut o) {
			Ok(()) => ok.push(v),
			Err(_) => break,
		}
	}
	let all = p.st.lock().unwrap().all.clone();
	let mut whole = 0;
	for i in (0..=all.len()).rev() {
		if let Ok(f) = decode(&all[..i]) {
			whole = f.len();
			for (a, b) in f.iter().zip(&ok) {
				if a != b {
					fail("wrong bytes on the wire", format!("{a} instead of {b}"));
				}
			}
			break;
		}
	}
	if whole < ok.len() {
		fail("failed write reported as done", format!("{} writes succeeded, {whole} whole frames went out", ok.len()));
	}
}

/// Anything at all may arrive: reading ends and does not crash.
fn garbage() {
	probe("garbage");
	let n = draw(12);
	let mut bytes: Vec<u8> = vec![];
	const BITS: &[&[u8]] =
		&[b"Content-Length: ", b"\r\n", b"\r\n\r\n", b"5", b"2", b"{}", b"\xff", b"\x00", b": ", b"\r", b"\n", b"Content-Type: x", b"[1]", b"\xe6\xbc", b"1e3", b"+4", b"0"];
	for _ in 0..n {
		if chance(1, 5) {
			bytes.extend(foreign_frame(&message().1));
		} else {
			bytes.extend_from_slice(BITS[draw(BITS.len())]);
		}
	}
	simrt::count_fault("garbage");
	simrt::note(format!("{} bytes of garbage", bytes.len()));
	let len = bytes.len();
	let p = Pipe::new(1 << 40, chance(1, 2));
	let w = feed_slowly(p.clone(), bytes, None);
	let mut r = reader(&p);
	let mut ended = false;
	for _ in 0..len + 2 {
		if let Ok(None) = read(&mut r) {
			ended = true;
			break;
		}
	}
	if !ended {
		fail("no end", format!("after {} reads of {len} bytes the end was not reported", len + 2));
	}
	loop {
		match r.fill_buf() {
			Ok(b) if b.is_empty() => break,
			Err(e) if e.kind() == ErrorKind::Interrupted => {}
			_ => fail("end reported early", "unread bytes are left".into()),
		}
	}
	let _ = w.join();
}
