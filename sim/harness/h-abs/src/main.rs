//! C01-C03: the completion source and the background work pool of analyzer-abstractions, run by simulated threads.
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use cancellation::{CancellationTokenSource, OperationCanceled};
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, log, probe};
use simstd::thread;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

type Fcs = FutureCompletionSource<u64, u32>;

fn main() {
	harness_main(&[
		Prop { id: "C01", main: c01, max_steps: 30_000 },
		Prop { id: "C02", main: c02, max_steps: 30_000 },
		Prop { id: "C03", main: c03, max_steps: 60_000 },
	]);
}

/// A future that polls `f` and is given up after `polls` polls (0: never).
struct GiveUp<F: Future> {
	f: Pin<Box<F>>,
	left: usize,
	limited: bool,
}
impl<F: Future> Future for GiveUp<F> {
	type Output = Option<F::Output>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
			return Poll::Ready(Some(v));
		}
		if self.limited {
			if self.left == 0 {
				return Poll::Ready(None);
			}
			self.left -= 1;
			cx.waker().wake_by_ref();
		}
		Poll::Pending
	}
}

/// Polls all the futures whenever woken, like join_all.
struct JoinAll<T>(Vec<(Pin<Box<dyn Future<Output = T>>>, Option<T>)>);
impl<T> Unpin for JoinAll<T> {}
impl<T> Future for JoinAll<T> {
	type Output = Vec<T>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Vec<T>> {
		let mut all = true;
		for (f, r) in self.0.iter_mut() {
			if r.is_none() {
				match f.as_mut().poll(cx) {
					Poll::Ready(v) => *r = Some(v),
					Poll::Pending => all = false,
				}
			}
		}
		if all {
			Poll::Ready(self.0.drain(..).map(|x| x.1.unwrap()).collect())
		} else {
			Poll::Pending
		}
	}
}
fn join_all<T>(v: Vec<Pin<Box<dyn Future<Output = T>>>>) -> JoinAll<T> {
	JoinAll(v.into_iter().map(|f| (f, None)).collect())
}

/// One suspension.
struct YieldOnce(bool);
impl Future for YieldOnce {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

fn dawdle() {
	match draw(4) {
		0 => {}
		1 => simrt::sleep_ns(1_000_000),
		2 => simrt::yield_point("dawdle"),
		_ => {
			for _ in 0..draw(20) {
				simrt::yield_point("dawdle")
			}
		}
	}
}

#[derive(Default)]
struct Outcome {
	/// every completed set operation: (event number at return, value or error code, accepted)
	sets: Vec<(u64, Result<u64, u32>, bool)>,
	waits: Vec<Result<u64, u32>>,
	abandoned: usize,
}

fn set(f: &Fcs, v: Result<u64, u32>) -> bool {
	match v {
		Ok(x) => f.set_value(x).is_ok(),
		Err(e) => f.set_err(e).is_ok(),
	}
}

fn waiter_thread(f: Fcs, n: usize, patience: Option<usize>, out: Arc<Mutex<Outcome>>, id: usize) -> thread::JoinHandle<()> {
	thread::Builder::new()
		.name(format!("waiter{id}"))
		.spawn(move || {
			dawdle();
			let mut v: Vec<Pin<Box<dyn Future<Output = Option<Result<u64, u32>>>>>> = vec![];
			for _ in 0..n {
				let f2 = f.clone();
				let fut = async move { f2.future().await };
				let g = GiveUp { f: Box::pin(fut), left: patience.unwrap_or(0), limited: patience.is_some() };
				v.push(Box::pin(g));
			}
			let rs = simrt::block_on(join_all(v));
			for r in rs {
				log(format!("waiter{id} got {r:?}"));
				let mut o = out.lock().unwrap();
				match r {
					Some(r) => o.waits.push(r),
					None => o.abandoned += 1,
				}
			}
		})
		.unwrap()
}

/// Every waiter is woken with the completion.
fn c01() {
	let f = Fcs::new();
	let out = Arc::new(Mutex::new(Outcome::default()));
	let mut waiters = draw_range(1, 4);
	let completers = if chance(1, 3) { 2 } else { 1 };
	// now and then, a crowd waits: on many threads, or in one task
	let crowd = if chance(1, 150) { 1 + draw(2) } else { 0 };
	if crowd > 0 {
		probe("crowd");
		simrt::more_steps(200_000);
	}
	if crowd == 1 {
		waiters = draw_range(20, 70);
	}
	let mut hs = vec![];
	let mut total = 0;
	simrt::note(format!("{waiters} waiting threads, {completers} completers"));
	for id in 0..waiters {
		let n = if crowd == 2 { draw_range(20, 300) } else { draw_range(1, 3) };
		let patience = if fault("waiter-abandons", 1, 6) { Some(simrt::fault_pick(4)) } else { None };
		total += n;
		hs.push(waiter_thread(f.clone(), n, patience, out.clone(), id));
	}
	for id in 0..completers {
		let v = if chance(1, 3) { Err(7 + id as u32) } else { Ok(100 + id as u64) };
		let f = f.clone();
		let out = out.clone();
		hs.push(
			thread::Builder::new()
				.name(format!("completer{id}"))
				.spawn(move || {
					dawdle();
					let ok = set(&f, v);
					log(format!("set {v:?} -> {ok}"));
					out.lock().unwrap().sets.push((simrt::tick(), v, ok));
				})
				.unwrap(),
		);
	}
	for h in hs {
		let _ = h.join();
	}
	// latecomers
	let late = simrt::block_on(f.future());
	let o = out.lock().unwrap();
	if o.sets.iter().any(|s| s.2) {
		probe("completed");
	} else {
		fail("completion rejected", format!("no completion was accepted by a fresh source: {:?}", o.sets));
	}
	if o.abandoned > 0 {
		probe("waiter abandoned");
	}
	if o.waits.len() + o.abandoned != total {
		fail("waiter result missing", format!("{} of {} waiters came back", o.waits.len(), total));
	}
	let wins: Vec<_> = o.sets.iter().filter(|s| s.2).map(|s| s.1).collect();
	for w in o.waits.iter().chain(std::iter::once(&late)) {
		if !wins.contains(w) {
			fail("waiter got another result", format!("waiter got {w:?}, completed with {wins:?}"));
		}
	}
}

/// One winner, and its value is the only one ever seen.
fn c02() {
	let preset = chance(1, 8);
	let f = if preset { Fcs::new_with_value(1) } else { Fcs::new() };
	let out = Arc::new(Mutex::new(Outcome::default()));
	let mut completers = draw_range(1, 4);
	if chance(1, 150) {
		probe("crowd");
		simrt::more_steps(100_000);
		completers = draw_range(10, 40);
	}
	let observers = draw_range(0, 3);
	let waiters = draw_range(0, 2);
	simrt::note(format!("{completers} completers, {observers} observers, {waiters} waiters, preset {preset}"));
	let mut hs = vec![];
	for id in 0..waiters {
		hs.push(waiter_thread(f.clone(), 1, None, out.clone(), id));
	}
	let seen = Arc::new(Mutex::new(Vec::<Result<u64, u32>>::new()));
	for id in 0..observers {
		let f = f.clone();
		let seen = seen.clone();
		let n = draw_range(1, 6);
		hs.push(
			thread::Builder::new()
				.name(format!("observer{id}"))
				.spawn(move || {
					let mut last: Option<Result<u64, u32>> = None;
					for _ in 0..n {
						match f.state() {
							Poll::Ready(v) => {
								if let Some(l) = last {
									if l != v {
										fail("value changed", format!("an observer saw {l:?} and then {v:?}"));
									}
								}
								last = Some(v);
								seen.lock().unwrap().push(v);
							}
							Poll::Pending => {
								if let Some(l) = last {
									fail("completion undone", format!("pending after {l:?}"));
								}
							}
						}
						dawdle();
					}
				})
				.unwrap(),
		);
	}
	for id in 0..completers {
		let times = draw_range(1, 2);
		let vals: Vec<Result<u64, u32>> = (0..times)
			.map(|k| if chance(1, 3) { Err(1000 + (id * 10 + k) as u32) } else { Ok(100 + (id * 10 + k) as u64) })
			.collect();
		let f = f.clone();
		let out = out.clone();
		hs.push(
			thread::Builder::new()
				.name(format!("completer{id}"))
				.spawn(move || {
					for v in vals {
						dawdle();
						let ok = set(&f, v);
						log(format!("set {v:?} -> {ok}"));
						match f.state() {
							Poll::Pending => fail("not complete after completion", format!("set {v:?} -> {ok}, yet pending")),
							Poll::Ready(x) => {
								if ok && x != v {
									fail("winner's value replaced", format!("accepted {v:?} but the value is {x:?}"));
								}
							}
						}
						out.lock().unwrap().sets.push((simrt::tick(), v, ok));
					}
				})
				.unwrap(),
		);
	}
	for h in hs {
		let _ = h.join();
	}
	let o = out.lock().unwrap();
	let mut wins: Vec<_> = o.sets.iter().filter(|s| s.2).map(|s| s.1).collect();
	if preset {
		wins.push(Ok(1));
	}
	if wins.len() != 1 {
		fail("not exactly one winner", format!("accepted completions: {wins:?} of {:?}", o.sets));
	}
	let fin = f.state();
	if fin != Poll::Ready(wins[0]) {
		fail("final value is not the winner's", format!("{fin:?} vs {wins:?}"));
	}
	for w in o.waits.iter().chain(seen.lock().unwrap().iter()) {
		if *w != wins[0] {
			fail("somebody saw another value", format!("{w:?} vs {wins:?}"));
		}
	}
	if o.sets.len() > 1 {
		probe("contended");
	}
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum ItemState {
	Queued,
	Running,
	Done,
}
struct World {
	items: Mutex<Vec<(ItemState, usize)>>,
	left: std::sync::atomic::AtomicUsize,
	all: FutureCompletionSource<u64, u32>,
	inside: Mutex<Vec<bool>>,
}

/// Marks an item as being polled: a pool must not poll one item twice at the same time, or again after it is done.
struct Watch<F> {
	f: Pin<Box<F>>,
	id: usize,
	w: Arc<World>,
}
impl<F: Future<Output = ()>> Future for Watch<F> {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let id = self.id;
		{
			let mut i = self.w.inside.lock().unwrap();
			if i[id] {
				drop(i);
				fail("work polled concurrently", format!("item {id}"));
			}
			i[id] = true;
		}
		{
			let mut it = self.w.items.lock().unwrap();
			if it[id].0 == ItemState::Done {
				drop(it);
				fail("work polled after it finished", format!("item {id}"));
			}
			it[id].0 = ItemState::Running;
			it[id].1 += 1;
		}
		simrt::yield_point("item.poll");
		let r = self.f.as_mut().poll(cx);
		self.w.inside.lock().unwrap()[id] = false;
		if r.is_ready() {
			self.w.items.lock().unwrap()[id].0 = ItemState::Done;
			log(format!("item {id} done"));
			if self.w.left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 {
				let _ = self.w.all.set_value(1);
			}
		}
		r
	}
}

#[derive(Clone)]
enum Op {
	Yield,
	Source(usize),
	Sleep(u64),
	Spawn(Vec<Op>),
	Chan(usize),
}

fn gen_ops(depth: usize, sources: usize, chans: usize, spawned: &mut usize) -> Vec<Op> {
	let n = draw(4);
	(0..n)
		.map(|_| match draw(if depth == 0 { 6 } else { 7 }) {
			0 | 1 => Op::Yield,
			2 | 3 if sources > 0 => Op::Source(draw(sources)),
			4 => Op::Sleep(1_000_000 * (1 + draw(3) as u64)),
			5 if chans > 0 => Op::Chan(draw(chans)),
			6 if depth > 0 && *spawned < 8 => {
				*spawned += 1;
				Op::Spawn(gen_ops(depth - 1, sources, chans, spawned))
			}
			_ => Op::Yield,
		})
		.collect()
}

#[derive(Clone)]
struct Env {
	w: Arc<World>,
	sources: Arc<Vec<Fcs>>,
	chans: Arc<Vec<ChanEnds>>,
}
type ChanEnds = (async_chan::Sender<u64>, async_chan::Receiver<u64>);

mod async_chan {
	//! A small bounded channel of the harness, built on the completion source's own event primitive.
	use event_listener::Event;
	use std::collections::VecDeque;
	use std::sync::{Arc, Mutex};
	struct C<T> {
		q: Mutex<VecDeque<T>>,
		ev: Event,
	}
	pub struct Sender<T>(Arc<C<T>>);
	pub struct Receiver<T>(Arc<C<T>>);
	pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
		let c = Arc::new(C { q: Mutex::new(VecDeque::new()), ev: Event::new() });
		(Sender(c.clone()), Receiver(c))
	}
	impl<T> Sender<T> {
		pub fn send(&self, t: T) {
			self.0.q.lock().unwrap().push_back(t);
			self.0.ev.notify(usize::MAX);
		}
	}
	impl<T> Receiver<T> {
		fn pop(&self) -> Option<T> { self.0.q.lock().unwrap().pop_front() }
		pub async fn recv(&self) -> T {
			loop {
				if let Some(t) = self.pop() {
					return t;
				}
				let l = self.0.ev.listen();
				if let Some(t) = self.pop() {
					return t;
				}
				l.await;
			}
		}
	}
}

fn spawn_item(env: &Env, ops: Vec<Op>) {
	let id = {
		let mut it = env.w.items.lock().unwrap();
		it.push((ItemState::Queued, 0));
		env.w.inside.lock().unwrap().push(false);
		it.len() - 1
	};
	env.w.left.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
	log(format!("spawn item {id}"));
	let e2 = env.clone();
	let body = async move {
		for op in ops {
			match op {
				Op::Yield => YieldOnce(false).await,
				Op::Source(i) => {
					let _ = e2.sources[i].future().await;
				}
				Op::Sleep(ns) => simrt::sleep_for(ns).await,
				Op::Spawn(ops) => spawn_item(&e2, ops),
				Op::Chan(i) => {
					let _ = e2.chans[i].1.recv().await;
				}
			}
		}
	};
	AsyncPool::spawn_work(Watch { f: Box::pin(body), id, w: env.w.clone() });
}

/// Does this item wait for something another thread has to do?
fn count_chan(ops: &[Op], c: &mut Vec<usize>) {
	for o in ops {
		match o {
			Op::Chan(i) => c[*i] += 1,
			Op::Spawn(o) => count_chan(o, c),
			_ => {}
		}
	}
}

fn c03() {
	let nsrc = draw_range(0, 3);
	let nch = draw_range(0, 2);
	let env = Env {
		w: Arc::new(World {
			items: Mutex::new(vec![]),
			left: std::sync::atomic::AtomicUsize::new(1),
			all: FutureCompletionSource::new(),
			inside: Mutex::new(vec![]),
		}),
		sources: Arc::new((0..nsrc).map(|_| Fcs::new()).collect()),
		chans: Arc::new((0..nch).map(|_| async_chan::channel()).collect()),
	};
	let nitems = draw_range(1, 5);
	let mut spawned = 0;
	let mut plan: Vec<Vec<Op>> = (0..nitems).map(|_| gen_ops(2, nsrc, nch, &mut spawned)).collect();
	// now and then, there is a lot of work at once
	let mut nitems = nitems;
	if chance(1, 250) {
		let n = (32 << draw(8)) + draw(32);
		probe("burst");
		simrt::more_steps(n as u64 * 400);
		match draw(3) {
			0 => plan[0].extend((0..n).map(|_| Op::Spawn(vec![]))),
			1 if nsrc > 0 => {
				plan.extend((0..n).map(|_| vec![Op::Source(0)]));
				nitems += n;
			}
			_ => {
				plan.extend((0..n).map(|_| vec![]));
				nitems += n;
			}
		}
	}
	let mut need = vec![0; nch];
	for p in &plan {
		count_chan(p, &mut need);
	}
	// 0: everything finishes, then stop. 1: stopped early. 2: cancelled, then stopped.
	let mode = if fault("pool-stopped-early", 1, 3) {
		1
	} else if fault("pool-cancelled", 1, 4) {
		2
	} else {
		0
	};
	let before = draw(nitems + 1);
	simrt::note(format!("{nitems} items (+{spawned} nested), {nsrc} completion sources, {nch} channels, mode {mode}"));
	let cts = Arc::new(CancellationTokenSource::new());
	let mut hs = vec![];
	for i in 0..nsrc {
		let s = env.sources[i].clone();
		hs.push(
			thread::Builder::new()
				.name(format!("completer{i}"))
				.spawn(move || {
					dawdle();
					let _ = s.set_value(i as u64);
				})
				.unwrap(),
		);
	}
	for i in 0..nch {
		let e = env.clone();
		let n = need[i];
		hs.push(
			thread::Builder::new()
				.name(format!("producer{i}"))
				.spawn(move || {
					for k in 0..n {
						if k % 2 == 0 {
							dawdle();
						}
						e.chans[i].0.send(k as u64);
					}
				})
				.unwrap(),
		);
	}
	let mut plan = plan.into_iter();
	// some work is queued before the pool starts
	for _ in 0..before {
		if let Some(p) = plan.next() {
			spawn_item(&env, p);
		}
	}
	let pool = AsyncPool::start(cts.token().clone());
	let stop_after = if mode == 0 { 0 } else { simrt::fault_pick(12) };
	let env2 = env.clone();
	let cts2 = cts.clone();
	let drive = async move {
		let env = env2;
		for p in plan {
			if chance(1, 2) {
				YieldOnce(false).await;
			}
			spawn_item(&env, p);
		}
		// the initial token in `left`
		if env.w.left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 {
			let _ = env.w.all.set_value(1);
		}
		match mode {
			0 => {
				let _ = env.w.all.future().await;
				let n = env.w.left.load(std::sync::atomic::Ordering::SeqCst);
				if n != 0 {
					fail("harness: count", format!("{n} left"));
				}
			}
			_ => {
				for _ in 0..stop_after {
					YieldOnce(false).await;
				}
				if mode == 2 {
					cts2.cancel();
				}
			}
		}
		log("stopping the pool".into());
		AsyncPool::stop();
	};
	let r: Arc<Mutex<Option<Result<(), OperationCanceled>>>> = Arc::new(Mutex::new(None));
	let r2 = r.clone();
	simrt::block_on(join_all(vec![
		Box::pin(async move {
			let x = pool.await;
			log(format!("pool returned {x:?}"));
			*r2.lock().unwrap() = Some(x);
		}) as Pin<Box<dyn Future<Output = ()>>>,
		Box::pin(drive),
	]));
	for h in hs {
		let _ = h.join();
	}
	let got = r.lock().unwrap().clone();
	match (mode, got) {
		(2, Some(Err(OperationCanceled))) => probe("cancelled"),
		(0 | 1, Some(Ok(()))) => probe(if mode == 1 { "stopped early" } else { "drained" }),
		(m, g) => fail("pool result", format!("mode {m}: {g:?}")),
	}
	let items = env.w.items.lock().unwrap();
	if mode == 0 {
		if let Some(i) = items.iter().position(|x| x.0 != ItemState::Done) {
			fail("work not finished", format!("item {i} is {:?}", items[i]));
		}
	}
	if items.iter().any(|x| x.1 > 1) {
		probe("item polled repeatedly");
	}
}
