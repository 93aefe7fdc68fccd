//! Deterministic simulation runtime: every thread of a run is a real OS thread, but exactly one of them holds the
//! baton at a time and the scheduler below decides, from recorded choices only, who gets it next. Time is virtual.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub type Tid = usize;

/// Panic payload used to unwind threads when a run is over.
pub struct SimAbort;

#[derive(Clone, Default, Debug)]
pub struct Streams {
	pub work: Vec<u32>,
	pub fault: Vec<u32>,
	/// decision index -> non-default choice
	pub sched: BTreeMap<u64, u32>,
}

#[derive(Clone)]
pub struct RunCfg {
	pub seed: u64,
	pub replay: Option<Streams>,
	pub max_steps: u64,
	pub keep_log: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
	/// Stable class (used for minimisation and known-finding matching).
	pub class: String,
	pub detail: String,
}

#[derive(Clone, Debug)]
pub struct RunResult {
	pub seed: u64,
	pub violation: Option<Violation>,
	pub streams: Streams,
	pub log_hash: u64,
	pub inter_hash: u64,
	pub steps: u64,
	pub decisions: u64,
	pub switches: u64,
	pub ops: u64,
	pub threads: usize,
	pub sim_ns: u64,
	pub leaked: usize,
	pub faults: BTreeMap<&'static str, u64>,
	pub probes: BTreeMap<String, u64>,
	pub log: Vec<String>,
	pub note: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
	Runnable,
	/// Blocked on a resource key (0 = none), optionally with a deadline.
	Blocked { key: usize, deadline: Option<u64> },
	/// Waiting until nothing else can run.
	Idle { allow_timers: bool },
	Done,
}

struct Task {
	name: Option<String>,
	st: St,
	timed_out: bool,
	woken: bool,
	prio: u64,
	gate: Arc<Gate>,
}

struct Gate {
	go: Mutex<bool>,
	cv: Condvar,
}
impl Gate {
	fn new() -> Arc<Gate> { Arc::new(Gate { go: Mutex::new(false), cv: Condvar::new() }) }
	fn open(&self) {
		*self.go.lock().unwrap() = true;
		self.cv.notify_one();
	}
	fn wait(&self) {
		let mut g = self.go.lock().unwrap();
		while !*g {
			g = self.cv.wait(g).unwrap();
		}
		*g = false;
	}
}

#[derive(Clone, Copy)]
struct Rng(u64);
impl Rng {
	fn new(seed: u64, salt: u64) -> Rng {
		let mut r = Rng(seed ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15));
		r.next();
		r.next();
		r
	}
	fn next(&mut self) -> u64 {
		// splitmix64
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

#[derive(Clone, Copy, Debug)]
enum Strategy {
	/// switch with probability num/256 at every yield point
	Walk(u64),
	/// priority based, with the given number of change points over the estimated length
	Pct(u64),
	/// run to block
	RunToBlock,
}

struct Inner {
	tasks: Vec<Task>,
	cur: Option<Tid>,
	now: u64,
	steps: u64,
	decisions: u64,
	switches: u64,
	ops: u64,
	max_steps: u64,
	strategy: Strategy,
	pct_points: Vec<u64>,
	run_len: u64,
	rs: Rng,
	rw: Rng,
	rf: Rng,
	replay: Option<Streams>,
	rec: Streams,
	wpos: usize,
	fpos: usize,
	aborting: bool,
	live_os: usize,
	violation: Option<Violation>,
	faults: BTreeMap<&'static str, u64>,
	probes: BTreeMap<String, u64>,
	log: Vec<String>,
	keep_log: bool,
	log_hash: u64,
	inter_hash: u64,
	note: String,
	ended: bool,
	ext: HashMap<std::any::TypeId, Arc<dyn Any + Send + Sync>>,
	on_panic: PanicPolicy,
	last_panic: Option<String>,
	exit_code: Option<i32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PanicPolicy {
	/// A panic in any simulated thread is a violation of class "panic".
	Violation,
	/// Panics are only recorded.
	Record,
}

pub struct Sim {
	m: Mutex<Inner>,
	end: Condvar,
	tls_seed: u64,
	tick: AtomicU64,
	abort_flag: AtomicBool,
}

thread_local! {
	static CUR: RefCell<Option<(Arc<Sim>, Tid)>> = const { RefCell::new(None) };
	static RAND_CTR: Cell<u64> = const { Cell::new(0) };
	static EXITING: Cell<bool> = const { Cell::new(false) };
	/// This thread is unwinding, or was the last time it ran simulated code.
	static PANICKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn cur() -> Option<(Arc<Sim>, Tid)> { CUR.try_with(|c| c.borrow().clone()).ok().flatten() }

pub fn in_sim() -> bool { CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false) }

pub fn current_tid() -> Tid { cur().map(|c| c.1).unwrap_or(usize::MAX) }

fn unwinding() -> bool { std::thread::panicking() || EXITING.with(|e| e.get()) }

fn fnv(h: u64, b: &[u8]) -> u64 {
	let mut h = h;
	for x in b {
		h ^= *x as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}

impl Inner {
	fn hash_event(&mut self, s: &str) {
		self.log_hash = fnv(self.log_hash, s.as_bytes());
		self.log_hash = fnv(self.log_hash, &self.now.to_le_bytes());
	}
	fn runnable(&self, out: &mut Vec<Tid>, first: Option<Tid>) {
		out.clear();
		if let Some(f) = first {
			if self.tasks[f].st == St::Runnable {
				out.push(f);
			}
		}
		for (i, t) in self.tasks.iter().enumerate() {
			if t.st == St::Runnable && Some(i) != first {
				out.push(i);
			}
		}
	}
	fn choose_sched(&mut self, list: &[Tid], cur_runnable: bool) -> usize {
		let n = list.len();
		if n <= 1 {
			return 0;
		}
		let d = self.decisions;
		self.decisions += 1;
		let late = self.steps > self.max_steps / 2;
		let default = if late { 1usize } else { 0 };
		let c = if let Some(r) = &self.replay {
			r.sched.get(&d).map(|v| (*v as usize) % n).unwrap_or(default)
		} else if late || (cur_runnable && self.run_len > 3000) {
			self.rs.below(n as u64) as usize
		} else {
			match self.strategy {
				Strategy::Walk(p) => {
					if cur_runnable {
						if self.rs.below(256) < p {
							1 + self.rs.below(n as u64 - 1) as usize
						} else {
							0
						}
					} else {
						self.rs.below(n as u64) as usize
					}
				}
				Strategy::Pct(_) => {
					if self.pct_points.contains(&d) && cur_runnable {
						let lowest = self.rs.below(1000);
						self.tasks[list[0]].prio = lowest;
					}
					let mut best = 0;
					for (i, t) in list.iter().enumerate() {
						if self.tasks[*t].prio > self.tasks[list[best]].prio {
							best = i;
						}
					}
					best
				}
				Strategy::RunToBlock => {
					if cur_runnable {
						0
					} else {
						self.rs.below(n as u64) as usize
					}
				}
			}
		};
		if c != default {
			self.rec.sched.insert(d, c as u32);
		}
		c
	}
	/// Picks the next task to run. None: nothing can ever run again (deadlock).
	fn pick(&mut self, cur: Option<Tid>) -> Option<Tid> {
		let mut list = Vec::new();
		loop {
			self.runnable(&mut list, cur);
			if !list.is_empty() {
				let cur_runnable = cur.map_or(false, |c| list[0] == c && self.tasks[c].st == St::Runnable);
				let i = self.choose_sched(&list, cur_runnable);
				let t = list[i];
				if Some(t) == cur {
					self.run_len += 1;
				} else {
					self.run_len = 0;
					self.switches += 1;
					self.inter_hash = fnv(self.inter_hash, &(t as u64).to_le_bytes());
				}
				return Some(t);
			}
			// Idle waiters that do not let timers run come first.
			let mut found = false;
			for t in self.tasks.iter_mut() {
				if let St::Idle { allow_timers: false } = t.st {
					t.st = St::Runnable;
					found = true;
				}
			}
			if found {
				continue;
			}
			let next = self
				.tasks
				.iter()
				.filter_map(|t| if let St::Blocked { deadline: Some(d), .. } = t.st { Some(d) } else { None })
				.min();
			if let Some(d) = next {
				if d > self.now {
					self.now = d;
				}
				let now = self.now;
				for t in self.tasks.iter_mut() {
					if let St::Blocked { deadline: Some(x), .. } = t.st {
						if x <= now {
							t.st = St::Runnable;
							t.timed_out = true;
						}
					}
				}
				continue;
			}
			for t in self.tasks.iter_mut() {
				if let St::Idle { .. } = t.st {
					t.st = St::Runnable;
					found = true;
				}
			}
			if found {
				continue;
			}
			return None;
		}
	}
	fn set_violation(&mut self, class: &str, detail: &str) {
		if self.violation.is_none() && !self.aborting {
			self.violation = Some(Violation { class: class.to_string(), detail: detail.to_string() });
		}
	}
}

impl Sim {
	fn lock(&self) -> MutexGuard<'_, Inner> { self.m.lock().unwrap_or_else(|e| e.into_inner()) }

	/// Called with the lock held by the thread `me` which gives up the baton (me's state already updated).
	/// Returns when `me` holds the baton again.
	fn reschedule(self: &Arc<Self>, mut g: MutexGuard<'_, Inner>, me: Tid, site: &str) {
		g.steps += 1;
		if g.aborting && g.steps > g.max_steps * 2 + 100_000 {
			self.leak_self(g, me);
		}
		if g.keep_log {
			let l = format!("[{}] t{} {}", g.now, me, site);
			g.log.push(l);
		}
		let h = fnv(g.log_hash, &[me as u8]);
		g.log_hash = fnv(h, site.as_bytes());
		if g.steps > g.max_steps && !g.aborting {
			g.set_violation("step-limit", "the run did not become quiet within the step bound (livelock or unbounded work)");
			self.begin_abort(&mut g);
		}
		let next = match g.pick(Some(me)) {
			Some(t) => t,
			None => {
				if !g.aborting {
					let d = describe(&g);
					g.set_violation("deadlock", &d);
				}
				self.begin_abort(&mut g);
				match g.pick(Some(me)) {
					Some(t) => t,
					None => {
						// Aborting and nothing can run: leak what is left.
						self.leak_self(g, me);
					}
				}
			}
		};
		if next == me {
			let ab = g.aborting;
			drop(g);
			self.check_abort(ab);
			return;
		}
		g.cur = Some(next);
		let ng = g.tasks[next].gate.clone();
		let mg = g.tasks[me].gate.clone();
		drop(g);
		ng.open();
		mg.wait();
		let ab = self.abort_flag.load(AO::SeqCst);
		self.check_abort(ab);
	}

	fn check_abort(&self, ab: bool) {
		if ab && !unwinding() {
			PANICKED.with(|p| p.set(true));
			panic::resume_unwind(Box::new(SimAbort));
		}
	}

	/// Gives the baton away for good: this thread cannot be unwound.
	fn leak_self(self: &Arc<Self>, mut g: MutexGuard<'_, Inner>, me: Tid) -> ! {
		g.tasks[me].st = St::Done;
		match g.pick(None) {
			Some(t) => {
				g.cur = Some(t);
				let gate = g.tasks[t].gate.clone();
				drop(g);
				gate.open();
			}
			None => {
				self.finish(&mut g);
				drop(g);
			}
		}
		loop {
			std::thread::park();
		}
	}

	fn finish(&self, g: &mut MutexGuard<'_, Inner>) {
		g.ended = true;
		self.end.notify_all();
	}

	fn begin_abort(&self, g: &mut MutexGuard<'_, Inner>) {
		if g.aborting {
			// Second deadlock while aborting: wake everything once more is pointless.
			return;
		}
		g.aborting = true;
		self.abort_flag.store(true, AO::SeqCst);
		for t in g.tasks.iter_mut() {
			if t.st != St::Done {
				t.st = St::Runnable;
			}
		}
	}

	/// Ends thread `me`: passes the baton on, or ends the run.
	fn exit_thread(self: &Arc<Self>, me: Tid) {
		let mut g = self.lock();
		g.tasks[me].st = St::Done;
		g.live_os -= 1;
		let joinkey = join_key(me);
		wake_key(&mut g, joinkey, usize::MAX);
		if me == 0 && !g.aborting {
			self.begin_abort(&mut g);
		}
		if g.live_os == 0 {
			self.finish(&mut g);
			return;
		}
		let next = g.pick(None).or_else(|| {
			if !g.aborting {
				let d = describe(&g);
				g.set_violation("deadlock", &d);
				self.begin_abort(&mut g);
				g.pick(None)
			} else {
				None
			}
		});
		match next {
			Some(t) => {
				g.cur = Some(t);
				let gate = g.tasks[t].gate.clone();
				drop(g);
				gate.open();
			}
			None => self.finish(&mut g),
		}
	}
}

fn describe(g: &Inner) -> String {
	let mut s = String::from("no thread can run:");
	for (i, t) in g.tasks.iter().enumerate() {
		if t.st != St::Done {
			s.push_str(&format!(" t{}({}):{}", i, t.name.as_deref().unwrap_or("?"), match t.st {
				St::Blocked { .. } => "blocked",
				St::Idle { .. } => "idle-wait",
				St::Runnable => "runnable",
				St::Done => "done",
			}));
		}
	}
	s
}

fn join_key(t: Tid) -> usize { usize::MAX / 2 + t }

fn wake_key(g: &mut Inner, key: usize, n: usize) -> usize {
	let mut woke = 0;
	for t in g.tasks.iter_mut() {
		if woke == n {
			break;
		}
		if let St::Blocked { key: k, .. } = t.st {
			if k == key && key != 0 {
				t.st = St::Runnable;
				t.woken = true;
				t.timed_out = false;
				woke += 1;
			}
		}
	}
	woke
}

// ---------------------------------------------------------------- public operations

/// A scheduling point.
pub fn yield_point(site: &'static str) {
	if let Some((s, me)) = cur() {
		if !std::thread::panicking() {
			PANICKED.with(|p| p.set(false));
		}
		let g = s.lock();
		s.reschedule(g, me, site);
	}
}

/// Blocks the current thread on `key` until woken (true) or until `deadline` (virtual ns) has passed (false).
pub fn block_on_key(key: usize, deadline: Option<u64>, site: &'static str) -> bool {
	if let Some((s, me)) = cur() {
		let mut g = s.lock();
		if g.aborting {
			if !unwinding() {
				drop(g);
				s.check_abort(true);
				return true;
			}
			// Unwinding: do not wait for events that may never come, only let others unwind.
			g.steps += 1;
			if g.steps > g.max_steps * 2 + 100_000 {
				s.leak_self(g, me);
			}
			let mut list = Vec::new();
			g.runnable(&mut list, Some(me));
			if list.len() > 1 {
				// rotate so that whoever holds the resource can unwind
				let t = list[(g.steps as usize) % list.len()];
				if t != me {
					g.cur = Some(t);
					let ng = g.tasks[t].gate.clone();
					let mg = g.tasks[me].gate.clone();
					drop(g);
					ng.open();
					mg.wait();
				}
			}
			return true;
		}
		g.tasks[me].st = St::Blocked { key, deadline };
		g.tasks[me].timed_out = false;
		g.tasks[me].woken = false;
		s.reschedule(g, me, site);
		let mut g = s.lock();
		let to = g.tasks[me].timed_out;
		g.tasks[me].timed_out = false;
		!to
	} else {
		std::thread::yield_now();
		true
	}
}

/// Wakes up to `n` threads blocked on `key`.
pub fn wake(key: usize, n: usize) -> usize {
	if let Some((s, _)) = cur() {
		let mut g = s.lock();
		wake_key(&mut g, key, n)
	} else {
		0
	}
}

pub fn sleep_ns(ns: u64) {
	if let Some((s, _)) = cur() {
		if ns == 0 {
			yield_point("sleep0");
			return;
		}
		let d = s.lock().now.saturating_add(ns);
		block_on_key(0, Some(d), "sleep");
	}
}

pub fn now_ns() -> u64 { cur().map(|(s, _)| s.lock().now).unwrap_or(0) }

/// Waits until no other thread can run. With `allow_timers` sleeping threads get to run first (until nothing sleeps).
pub fn wait_idle(allow_timers: bool) {
	if let Some((s, me)) = cur() {
		let mut g = s.lock();
		if g.aborting {
			drop(g);
			s.check_abort(true);
			return;
		}
		g.tasks[me].st = St::Idle { allow_timers };
		s.reschedule(g, me, "wait-idle");
	}
}

/// Workload choice in 0..n (0 is the simplest).
pub fn draw(n: usize) -> usize {
	if n <= 1 {
		return 0;
	}
	if let Some((s, _)) = cur() {
		let mut g = s.lock();
		let v = if let Some(r) = &g.replay {
			r.work.get(g.wpos).map(|v| *v as usize % n).unwrap_or(0)
		} else {
			g.rw.below(n as u64) as usize
		};
		g.wpos += 1;
		g.rec.work.push(v as u32);
		v
	} else {
		0
	}
}

pub fn draw_range(lo: usize, hi: usize) -> usize { lo + draw(hi - lo + 1) }

pub fn chance(num: usize, den: usize) -> bool {
	// value 0 must mean "no"
	let v = draw(den);
	v >= den - num
}

/// Fault choice: true with probability num/den; counted under `kind` when it fires.
pub fn fault(kind: &'static str, num: usize, den: usize) -> bool {
	if num == 0 {
		return false;
	}
	if let Some((s, _)) = cur() {
		let mut g = s.lock();
		let v = if let Some(r) = &g.replay {
			r.fault.get(g.fpos).map(|v| *v as usize % den).unwrap_or(0)
		} else {
			g.rf.below(den as u64) as usize
		};
		g.fpos += 1;
		g.rec.fault.push(v as u32);
		let fired = v >= den - num.min(den);
		if fired {
			*g.faults.entry(kind).or_insert(0) += 1;
			let m = format!("fault {kind}");
			g.hash_event(&m);
			if g.keep_log {
				let l = format!("[{}] *** fault {}", g.now, kind);
				g.log.push(l);
			}
		}
		fired
	} else {
		false
	}
}

/// Fault magnitude in 0..n, 0 the mildest.
pub fn fault_pick(n: usize) -> usize {
	if n <= 1 {
		return 0;
	}
	if let Some((s, _)) = cur() {
		let mut g = s.lock();
		let v = if let Some(r) = &g.replay {
			r.fault.get(g.fpos).map(|v| *v as usize % n).unwrap_or(0)
		} else {
			g.rf.below(n as u64) as usize
		};
		g.fpos += 1;
		g.rec.fault.push(v as u32);
		v
	} else {
		0
	}
}

pub fn count_fault(kind: &'static str) {
	if let Some((s, _)) = cur() {
		*s.lock().faults.entry(kind).or_insert(0) += 1;
	}
}

pub fn probe(name: &str) {
	if let Some((s, _)) = cur() {
		*s.lock().probes.entry(name.to_string()).or_insert(0) += 1;
	}
}

/// A run that has more to do than others takes more steps.
pub fn more_steps(n: u64) {
	if let Some((s, _)) = cur() {
		s.lock().max_steps += n;
	}
}

/// One operation of a history that is decided by the seed, other than by scheduling.
pub fn op() {
	if let Some((s, _)) = cur() {
		s.lock().ops += 1;
	}
}

pub fn log(msg: String) {
	if let Some((s, me)) = cur() {
		let mut g = s.lock();
		g.hash_event(&msg);
		if g.keep_log {
			let l = format!("[{}] t{} | {}", g.now, me, msg);
			g.log.push(l);
		}
	}
}

pub fn keep_log() -> bool { cur().map_or(false, |(s, _)| s.lock().keep_log) }

/// Global event sequence number (order of events in the run).
pub fn tick() -> u64 { cur().map(|(s, _)| s.tick.fetch_add(1, AO::SeqCst)).unwrap_or(0) }

pub fn note(msg: String) {
	if let Some((s, _)) = cur() {
		s.lock().note = msg;
	}
}

/// Records a violation and ends the run.
pub fn fail(class: &str, detail: String) -> ! {
	if let Some((s, me)) = cur() {
		let mut g = s.lock();
		g.set_violation(class, &detail);
		s.begin_abort(&mut g);
		drop(g);
		let _ = me;
		if unwinding() {
			// cannot unwind twice
			loop {
				yield_point("fail-while-panicking");
			}
		}
		panic::resume_unwind(Box::new(SimAbort));
	}
	panic!("{class}: {detail}");
}

/// Ends the run without a violation (e.g. process exit).
pub fn end_run() -> ! {
	if let Some((s, _)) = cur() {
		let mut g = s.lock();
		s.begin_abort(&mut g);
		drop(g);
		if !unwinding() {
			panic::resume_unwind(Box::new(SimAbort));
		}
		loop {
			yield_point("end-while-panicking");
		}
	}
	std::process::exit(0)
}

pub fn set_exit_code(c: i32) {
	if let Some((s, _)) = cur() {
		s.lock().exit_code = Some(c);
	}
}
pub fn exit_code() -> Option<i32> { cur().and_then(|(s, _)| s.lock().exit_code) }

pub fn aborting() -> bool { cur().map_or(false, |(s, _)| s.abort_flag.load(AO::SeqCst)) }

pub fn set_panic_policy(p: PanicPolicy) {
	if let Some((s, _)) = cur() {
		s.lock().on_panic = p;
	}
}
/// Most recent recorded panic (policy Record).
pub fn take_last_panic() -> Option<String> { cur().and_then(|(s, _)| s.lock().last_panic.take()) }

/// Per-run singletons (simulated disk, stdin, ...).
pub fn ext<T: Any + Send + Sync + Default>() -> Arc<T> {
	let (s, _) = cur().expect("not in a simulation");
	let mut g = s.lock();
	let e = g
		.ext
		.entry(std::any::TypeId::of::<T>())
		.or_insert_with(|| Arc::new(T::default()) as Arc<dyn Any + Send + Sync>)
		.clone();
	drop(g);
	e.downcast::<T>().unwrap()
}
pub fn ext_opt<T: Any + Send + Sync + Default>() -> Option<Arc<T>> { if in_sim() { Some(ext::<T>()) } else { None } }

// ---------------------------------------------------------------- threads

pub struct Spawned {
	pub tid: Tid,
}

/// Starts a simulated thread. `env` threads are harness environment.
pub fn spawn_raw(name: Option<String>, stack: usize, f: Box<dyn FnOnce() + Send>) -> Spawned {
	let (s, _) = cur().expect("spawn outside a simulation");
	let tid = register(&s, name);
	start_os(s, tid, stack, f);
	yield_point("spawn");
	Spawned { tid }
}

fn register(s: &Arc<Sim>, name: Option<String>) -> Tid {
	let mut g = s.lock();
	let tid = g.tasks.len();
	let prio = 1000 + g.rs.below(1 << 30);
	g.tasks.push(Task {
		name,
		st: St::Runnable,
		timed_out: false,
		woken: false,
		prio,
		gate: Gate::new(),
	});
	g.live_os += 1;
	tid
}

fn start_os(s: Arc<Sim>, tid: Tid, stack: usize, f: Box<dyn FnOnce() + Send>) {
	let gate = s.lock().tasks[tid].gate.clone();
	std::thread::Builder::new()
		.stack_size(stack)
		.spawn(move || {
			CUR.with(|c| *c.borrow_mut() = Some((s.clone(), tid)));
			at_thread_exit(s.clone(), tid);
			gate.wait();
			let aborting = s.abort_flag.load(AO::SeqCst);
			if !aborting {
				let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
				if let Err(p) = r {
					if !p.is::<SimAbort>() {
						report_panic(&s, tid, &p);
					}
					let _ = panic::catch_unwind(panic::AssertUnwindSafe(move || drop(p)));
				}
			} else {
				let _ = panic::catch_unwind(panic::AssertUnwindSafe(move || drop(f)));
			}
			// The thread leaves the simulation only after its thread-local destructors ran: see on_thread_exit.
			EXITING.with(|e| e.set(true));
		})
		.expect("cannot start a thread");
}

extern "C" {
	fn pthread_key_create(key: *mut u32, dtor: Option<unsafe extern "C" fn(*mut std::ffi::c_void)>) -> i32;
	fn pthread_setspecific(key: u32, v: *const std::ffi::c_void) -> i32;
}
static EXIT_KEY: std::sync::OnceLock<u32> = std::sync::OnceLock::new();

/// glibc runs pthread key destructors after the destructors of Rust thread locals.
fn at_thread_exit(s: Arc<Sim>, tid: Tid) {
	let key = *EXIT_KEY.get_or_init(|| unsafe {
		let mut k = 0u32;
		assert_eq!(pthread_key_create(&mut k, Some(on_thread_exit)), 0);
		k
	});
	let b: Box<(Arc<Sim>, Tid)> = Box::new((s, tid));
	unsafe {
		pthread_setspecific(key, Box::into_raw(b) as *const _);
	}
}

unsafe extern "C" fn on_thread_exit(p: *mut std::ffi::c_void) {
	let b = Box::from_raw(p as *mut (Arc<Sim>, Tid));
	b.0.exit_thread(b.1);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	random_bytes(std::slice::from_raw_parts_mut(buf, len));
	len as isize
}

/// To be called from a `catch_unwind` around user code in a simulated thread: classifies the payload.
pub fn note_panic(p: &(dyn Any + Send)) {
	if p.is::<SimAbort>() {
		return;
	}
	if let Some((s, me)) = cur() {
		report_panic_dyn(&s, me, p);
	}
}

fn payload_str(p: &(dyn Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		"(non-string panic)".into()
	}
}

fn report_panic(s: &Arc<Sim>, tid: Tid, p: &Box<dyn Any + Send>) { report_panic_dyn(s, tid, &**p) }

fn report_panic_dyn(s: &Arc<Sim>, tid: Tid, p: &(dyn Any + Send)) {
	let full = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| payload_str(p));
	let mut g = s.lock();
	let m = format!("panic in t{tid}: {full}");
	g.hash_event(&m);
	if g.keep_log {
		let l = format!("[{}] {}", g.now, m);
		g.log.push(l);
	}
	g.last_panic = Some(full.clone());
	if g.on_panic == PanicPolicy::Violation {
		g.set_violation(&format!("panic: {}", normalise(&full)), &m);
		s.begin_abort(&mut g);
	}
}

/// Removes digits runs and line numbers so that a class is stable.
fn normalise(m: &str) -> String {
	let first = m.lines().next().unwrap_or("");
	let mut out = String::new();
	let mut in_num = false;
	for c in first.chars() {
		if c.is_ascii_digit() {
			if !in_num {
				out.push('N');
			}
			in_num = true;
		} else {
			in_num = false;
			out.push(c);
		}
	}
	out.chars().take(160).collect()
}

pub fn join_wait(t: Tid) {
	loop {
		{
			let Some((s, _)) = cur() else { return };
			let g = s.lock();
			if g.tasks[t].st == St::Done {
				return;
			}
		}
		block_on_key(join_key(t), None, "join");
	}
}

pub fn is_done(t: Tid) -> bool { cur().map_or(true, |(s, _)| s.lock().tasks[t].st == St::Done) }

pub fn thread_name(t: Tid) -> Option<String> { cur().and_then(|(s, _)| s.lock().tasks.get(t).and_then(|x| x.name.clone())) }

/// Deterministic bytes for getrandom() inside a simulation (a pure function of seed, thread and call number).
pub fn random_bytes(buf: &mut [u8]) -> bool {
	let seed = match CUR.try_with(|c| c.borrow().as_ref().map(|(s, t)| (s.tls_seed, *t))) {
		Ok(Some((seed, t))) => seed ^ ((t as u64 + 1) << 32),
		_ => 0x5EED,
	};
	let ctr = RAND_CTR.try_with(|c| {
		let v = c.get();
		c.set(v + 1);
		v
	});
	let mut r = Rng::new(seed, ctr.unwrap_or(0) + 77);
	for ch in buf.chunks_mut(8) {
		let b = r.next().to_le_bytes();
		ch.copy_from_slice(&b[..ch.len()]);
	}
	true
}

// ---------------------------------------------------------------- running

static HOOK: std::sync::Once = std::sync::Once::new();

pub fn install_panic_hook(verbose: bool) {
	HOOK.call_once(|| {
		panic::set_hook(Box::new(move |info| {
			let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
			let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
				s.to_string()
			} else if let Some(s) = info.payload().downcast_ref::<String>() {
				s.clone()
			} else {
				"(non-string panic)".into()
			};
			// The file name without directories keeps classes stable across checkouts.
			let short = loc.rsplit('/').next().unwrap_or("").to_string();
			let file = short.split(':').next().unwrap_or("").to_string();
			let full = format!("{} @ {}", msg.lines().next().unwrap_or(""), file);
			if verbose || !in_sim() {
				eprintln!("panic: {msg} @ {loc}");
			}
			if PANICKED.with(|p| p.replace(true)) || aborting() {
				// A panic while unwinding would end the process. The run ends instead, and this thread stays where it is.
				if let Some((s, me)) = cur() {
					let mut g = s.lock();
					if !g.aborting {
						let first = PANIC_MSG.with(|m| m.borrow().clone()).unwrap_or_default();
						let d = format!("panic in t{me}: {first}, and another while unwinding: {full}");
						g.hash_event(&d);
						g.set_violation(&format!("panic: {}", normalise(&first)), &d);
						s.begin_abort(&mut g);
					}
					s.leak_self(g, me);
				}
			}
			PANIC_MSG.with(|m| {
				let mut m = m.borrow_mut();
				if m.is_none() || true {
					*m = Some(full)
				}
			});
		}));
	});
}

pub fn run<F: FnOnce() + Send + 'static>(cfg: &RunCfg, main: F) -> RunResult {
	install_panic_hook(std::env::var_os("SIM_VERBOSE").is_some());
	std::hint::black_box(getrandom as usize);
	let mut rs = Rng::new(cfg.seed, 1);
	let strategy = match rs.below(10) {
		0 => Strategy::RunToBlock,
		1 | 2 => Strategy::Pct(1 + rs.below(4)),
		3 | 4 => Strategy::Walk(8 + rs.below(24)),
		5 | 6 | 7 => Strategy::Walk(32 + rs.below(64)),
		_ => Strategy::Walk(100 + rs.below(156)),
	};
	let mut pct_points = vec![];
	if let Strategy::Pct(k) = strategy {
		let len = [60u64, 300, 1500][rs.below(3) as usize];
		for _ in 0..k {
			pct_points.push(rs.below(len));
		}
	}
	let sim = Arc::new(Sim {
		m: Mutex::new(Inner {
			tasks: vec![],
			cur: Some(0),
			now: 0,
			steps: 0,
			decisions: 0,
			switches: 0,
			ops: 0,
			max_steps: cfg.max_steps,
			strategy,
			pct_points,
			run_len: 0,
			rs,
			rw: Rng::new(cfg.seed, 2),
			rf: Rng::new(cfg.seed, 3),
			replay: cfg.replay.clone(),
			rec: Streams::default(),
			wpos: 0,
			fpos: 0,
			aborting: false,
			live_os: 0,
			violation: None,
			faults: BTreeMap::new(),
			probes: BTreeMap::new(),
			log: vec![],
			keep_log: cfg.keep_log,
			log_hash: 0xcbf29ce484222325,
			inter_hash: 0xcbf29ce484222325,
			note: String::new(),
			ended: false,
			ext: HashMap::new(),
			on_panic: PanicPolicy::Violation,
			last_panic: None,
			exit_code: None,
		}),
		end: Condvar::new(),
		tls_seed: cfg.seed.wrapping_mul(0x2545F4914F6CDD1D),
		tick: AtomicU64::new(0),
		abort_flag: AtomicBool::new(false),
	});
	let tid = register(&sim, Some("main".into()));
	start_os(sim.clone(), tid, 8 << 20, Box::new(main));
	let gate = sim.lock().tasks[0].gate.clone();
	gate.open();
	let mut g = sim.lock();
	while !g.ended {
		g = sim.end.wait(g).unwrap_or_else(|e| e.into_inner());
	}
	let leaked = g.live_os;
	let ext = std::mem::take(&mut g.ext);
	let r = RunResult {
		seed: cfg.seed,
		violation: g.violation.clone(),
		streams: std::mem::take(&mut g.rec),
		log_hash: g.log_hash,
		inter_hash: g.inter_hash,
		steps: g.steps,
		decisions: g.decisions,
		switches: g.switches,
		ops: g.ops,
		threads: g.tasks.len(),
		sim_ns: g.now,
		leaked,
		faults: std::mem::take(&mut g.faults),
		probes: std::mem::take(&mut g.probes),
		log: std::mem::take(&mut g.log),
		note: std::mem::take(&mut g.note),
	};
	drop(g);
	drop(ext);
	r
}

// ---------------------------------------------------------------- futures

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};

struct Sleeper {
	flag: AtomicBool,
}
impl Wake for Sleeper {
	fn wake(self: Arc<Self>) { self.wake_by_ref() }
	fn wake_by_ref(self: &Arc<Self>) {
		yield_point("waker.wake");
		self.flag.store(true, AO::SeqCst);
		wake(Arc::as_ptr(self) as usize, usize::MAX);
	}
}

thread_local! {
	static TIMERS: RefCell<Vec<(u64, Waker)>> = const { RefCell::new(Vec::new()) };
}

/// Runs a future to completion on the current simulated thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
	let mut f = std::pin::pin!(f);
	let s = Arc::new(Sleeper { flag: AtomicBool::new(false) });
	let w: Waker = s.clone().into();
	let mut cx = Context::from_waker(&w);
	loop {
		yield_point("executor.poll");
		if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
			return v;
		}
		loop {
			if s.flag.swap(false, AO::SeqCst) {
				break;
			}
			let now = now_ns();
			let mut due = vec![];
			let mut min: Option<u64> = None;
			TIMERS.with(|t| {
				t.borrow_mut().retain(|(d, w)| {
					if *d <= now {
						due.push(w.clone());
						false
					} else {
						min = Some(min.map_or(*d, |m: u64| m.min(*d)));
						true
					}
				})
			});
			if !due.is_empty() {
				for w in due {
					w.wake();
				}
				continue;
			}
			block_on_key(Arc::as_ptr(&s) as usize, min, "executor.park");
		}
	}
}

/// Completes at the given virtual time; must be polled below `block_on`.
pub struct SleepUntil(u64, bool);
pub fn sleep_until(deadline: u64) -> SleepUntil { SleepUntil(deadline, false) }
pub fn sleep_for(ns: u64) -> SleepUntil { SleepUntil(now_ns().saturating_add(ns), false) }
impl Future for SleepUntil {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if now_ns() >= self.0 && self.1 {
			return Poll::Ready(());
		}
		// even an elapsed deadline gives others a chance to run first
		self.1 = true;
		let d = self.0;
		let w = cx.waker().clone();
		TIMERS.with(|t| t.borrow_mut().push((d, w)));
		Poll::Pending
	}
}
