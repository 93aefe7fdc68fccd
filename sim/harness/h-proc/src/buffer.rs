//! C13: the driver that tools and tests use instead of standard streams.
use analyzer_host::json_rpc::message::{Message, Notification};
use cancellation::CancellationTokenSource;
use p4_analyzer::driver::{buffer_driver::BufferStruct, Driver, DriverType};
use queues::*;
use serde_json::json;
use simrt::{chance, draw, draw_range, fail, fault, log, note, probe};
use simstd::sync::{Arc, Mutex};
use simstd::thread;

const MS: u64 = 1_000_000;

fn msg(n: usize) -> Message { Message::Notification(Notification { method: format!("m{n}"), params: json!({ "n": n }) }) }
fn number(m: &Message) -> usize {
	match m {
		Message::Notification(n) => n.params["n"].as_u64().unwrap() as usize,
		_ => usize::MAX,
	}
}

#[derive(Default)]
struct Ledger {
	/// numbers of the messages in the queue, as far as the tool knows
	queued: Vec<usize>,
	/// how many reads have been allowed at most, and how many are certain
	allowed: usize,
	received: Vec<usize>,
	cleared: Vec<usize>,
	replies: Vec<usize>,
}

pub fn c13() {
	let mut next = 0;
	let mut fresh = |n: usize| -> (Queue<Message>, Vec<usize>) {
		let (mut q, mut v) = (Queue::new(), vec![]);
		for _ in 0..n {
			next += 1;
			q.add(msg(next)).unwrap();
			v.push(next);
		}
		(q, v)
	};
	// now and then, far more messages than usual
	let big = chance(1, 120);
	if big {
		probe("many messages");
		simrt::more_steps(4_000_000);
	}
	let (q, v) = fresh(if big { draw(200) } else { draw(4) });
	let buffer = std::sync::Arc::new(BufferStruct::new(q));
	let driver = std::sync::Arc::new(Driver::new(DriverType::Buffer(buffer.clone())));
	let (to_client, from_client) = driver.get_message_channel();
	let led = Arc::new(Mutex::new(Ledger { queued: v, ..Default::default() }));
	let source = CancellationTokenSource::new();
	let token = source.token().clone();
	let d = {
		let driver = driver.clone();
		thread::Builder::new().name("driver".into()).spawn(move || simrt::block_on(driver.start(token))).unwrap()
	};
	let per = draw(3);
	let slow = fault("slow host", 1, 4);
	// the host: takes messages, sends some
	let host = {
		let (led, to_client, from_client) = (led.clone(), to_client.clone(), from_client.clone());
		thread::Builder::new()
			.name("host".into())
			.spawn(move || {
				while let Ok(m) = simrt::block_on(from_client.recv()) {
					let n = number(&m);
					log(format!("host received {n}"));
					let mut g = led.lock().unwrap();
					g.received.push(n);
					if g.received.len() > g.allowed {
						let d = format!("{} messages were read, {} reads allowed", g.received.len(), g.allowed);
						drop(g);
						fail("read-not-allowed", d);
					}
					drop(g);
					for k in 0..per {
						if slow {
							simrt::sleep_ns(3 * MS);
						}
						let r = n * 10 + k;
						led.lock().unwrap().replies.push(r);
						let _ = simrt::block_on(to_client.send(msg(r)));
					}
				}
			})
			.unwrap()
	};
	let n = if big { draw_range(10, 60) } else { draw_range(1, 12) };
	note(format!("{n} operations, {per} replies per message"));
	let mut outputs: Vec<usize> = vec![];
	let mut discarded = false;
	let mut allow_all_used = false;
	let take = |v: Vec<String>, outputs: &mut Vec<usize>| {
		for s in v {
			let Some((_, body)) = s.split_once("\r\n\r\n") else { fail("wrong-output", s) };
			let j: serde_json::Value = serde_json::from_str(body).unwrap();
			outputs.push(j["params"]["n"].as_u64().unwrap() as usize);
		}
	};
	for _ in 0..n {
		match draw(10) {
			9 if chance(1, 2) => {
				// waits for as many as that
				if !discarded {
					let left = per * led.lock().unwrap().received.len() - outputs.len();
					let least = draw(left + 1);
					let v = simrt::block_on(buffer.get_output_buffer(least));
					if v.len() < least {
						fail("wrong-output", format!("{} answers instead of {least} at least", v.len()));
					}
					take(v, &mut outputs);
				}
			}
			0 | 1 => {
				let (q, v) = fresh(draw_range(1, if big { 12 } else { 3 }));
				led.lock().unwrap().queued.extend(v);
				buffer.add_to_queue_blocking(q);
			}
			2 => {
				led.lock().unwrap().allowed += 1;
				simrt::block_on(buffer.allow_read_blocking());
			}
			3 => {
				let k = draw(if big { 60 } else { 4 });
				led.lock().unwrap().allowed += k;
				simrt::block_on(buffer.allow_any_read_blocking(k));
			}
			4 => {
				// everything that is in the queue, and nothing that comes later; permits for messages not there yet are forgotten
				let mut g = led.lock().unwrap();
				g.allowed = g.queued.len();
				drop(g);
				allow_all_used = true;
				simrt::block_on(buffer.allow_all_read_blocking());
			}
			5 => {
				let (q, v) = fresh(draw_range(1, if big { 12 } else { 3 }));
				{
					let mut g = led.lock().unwrap();
					g.queued.extend(v);
					g.allowed = g.queued.len();
				}
				allow_all_used = true;
				if !discarded && chance(1, 3) {
					// as many answers as there will be in all, or fewer
					probe("sent and answered");
					let pending = per * led.lock().unwrap().queued.len() - outputs.len();
					let least = draw(pending + 1);
					let v = simrt::block_on(buffer.send_recieve_messages(q, least));
					if v.len() < least {
						fail("wrong-output", format!("{} answers instead of {least} at least", v.len()));
					}
					take(v, &mut outputs);
				} else {
					simrt::block_on(buffer.send_messages(q));
				}
				if chance(1, 3) {
					// all of them are under way: what is cleared now is not there any more
					probe("cleared after sending");
					buffer.clear_message_buffer();
				}
			}
			6 => {
				probe("cleared");
				buffer.clear_message_buffer();
				// what is gone is what will not arrive: settle first
				loop {
					let n = led.lock().unwrap().received.len();
					simrt::sleep_ns(400 * MS);
					if led.lock().unwrap().received.len() == n {
						break;
					}
				}
				simrt::wait_idle(false);
				let mut g = led.lock().unwrap();
				let gone: Vec<usize> = g.queued.iter().filter(|n| !g.received.contains(n)).copied().collect();
				g.queued.retain(|n| !gone.contains(n));
				g.cleared.extend(gone);
				g.allowed = g.received.len();
			}
			7 => {
				if chance(1, 3) {
					buffer.clear_output_buffer();
					discarded = true;
				} else {
					let v = simrt::block_on(buffer.get_output_buffer(0));
					take(v, &mut outputs);
				}
			}
			8 if chance(1, 4) => {
				// what has been allowed has been read after a while
				probe("settled");
				loop {
					let n = led.lock().unwrap().received.len();
					simrt::sleep_ns(400 * MS);
					if led.lock().unwrap().received.len() == n {
						break;
					}
				}
				simrt::wait_idle(false);
				let g = led.lock().unwrap();
				if g.received.len() != g.queued.len().min(g.allowed) {
					let d = format!("of {} messages {} are allowed to be read, {} were read", g.queued.len(), g.allowed, g.received.len());
					drop(g);
					fail("allowed-not-read", d);
				}
			}
			_ => simrt::sleep_ns(draw(8) as u64 * MS),
		}
	}
	let _ = allow_all_used;
	// everything goes through in the end
	{
		let mut g = led.lock().unwrap();
		g.allowed = g.queued.len();
	}
	simrt::block_on(buffer.allow_all_read_blocking());
	let deadline = simrt::now_ns() + 600_000 * MS;
	loop {
		simrt::sleep_ns(20 * MS);
		let g = led.lock().unwrap();
		if g.received.len() >= g.queued.len() {
			break;
		}
		if simrt::now_ns() > deadline {
			let d = format!("queued {:?}, received {:?}", g.queued, g.received);
			drop(g);
			fail("message-not-delivered", d);
		}
	}
	simrt::sleep_ns(200 * MS);
	let (queued, received, cleared, replies) = {
		let g = led.lock().unwrap();
		(g.queued.clone(), g.received.clone(), g.cleared.clone(), g.replies.clone())
	};
	if queued != received {
		fail("wrong-delivery", format!("queued {queued:?} (cleared {cleared:?}), received {received:?}"));
	}
	if !discarded {
		let want = replies.len() - outputs.len().min(replies.len());
		let v = simrt::block_on(buffer.get_output_buffer(want));
		take(v, &mut outputs);
		if outputs != replies {
			fail("wrong-output", format!("sent {replies:?}, returned {outputs:?}"));
		}
	}
	// nothing is read without permission afterwards
	if chance(1, 2) {
		let (q, v) = fresh(1);
		buffer.add_to_queue_blocking(q);
		simrt::sleep_ns(100 * MS);
		let g = led.lock().unwrap();
		if g.received.contains(&v[0]) {
			drop(g);
			fail("read-not-allowed", "a message was read that was queued after everything allowed had been read".into());
		}
	}
	// the end
	let cancelled = chance(1, 2);
	if cancelled {
		source.cancel();
	} else {
		to_client.close();
	}
	let r = d.join();
	match r {
		Ok(r) => {
			if r.is_err() != cancelled {
				fail("wrong-result", format!("the driver returned {:?}, cancelled {cancelled}", r.is_ok()));
			}
		}
		Err(_) => fail("driver-crashed", "the driver panicked".into()),
	}
	drop(host);
}
