//! Batch driver shared by the harnesses: seeds, minimisation, replay files, statistics.
use serde_json::{json, Value};
use simrt::{RunCfg, RunResult, Streams};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub use simrt;

pub struct Prop {
	pub id: &'static str,
	pub main: fn(),
	pub max_steps: u64,
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
	a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

pub fn streams_json(s: &Streams) -> Value {
	json!({
		"work": s.work,
		"fault": s.fault,
		"sched": s.sched.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
	})
}
pub fn streams_from(v: &Value) -> Streams {
	let nums = |v: &Value| -> Vec<u32> {
		v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default()
	};
	let mut sched = BTreeMap::new();
	if let Some(a) = v["sched"].as_array() {
		for e in a {
			sched.insert(e[0].as_u64().unwrap_or(0), e[1].as_u64().unwrap_or(0) as u32);
		}
	}
	Streams { work: nums(&v["work"]), fault: nums(&v["fault"]), sched }
}

fn exec(p: &Prop, seed: u64, replay: Option<Streams>, keep_log: bool) -> RunResult {
	let m = p.main;
	let cfg = RunCfg { seed, replay, max_steps: p.max_steps, keep_log };
	simrt::run(&cfg, m)
}

fn trim(s: &mut Streams) {
	while s.work.last() == Some(&0) {
		s.work.pop();
	}
	while s.fault.last() == Some(&0) {
		s.fault.pop();
	}
}
fn weight(s: &Streams) -> u64 {
	s.work.len() as u64 * 3
		+ s.work.iter().map(|x| (*x as u64).min(64)).sum::<u64>()
		+ s.fault.len() as u64
		+ s.fault.iter().filter(|x| **x != 0).count() as u64 * 8
		+ s.sched.len() as u64 * 6
}

/// Smaller streams that fail in the same class.
pub fn minimise(p: &Prop, seed: u64, mut best: Streams, class: &str, budget: Duration) -> (Streams, u64) {
	let start = Instant::now();
	let mut tried = 0u64;
	trim(&mut best);
	let mut attempt = |c: &Streams, best: &mut Streams| -> bool {
		if start.elapsed() > budget {
			return false;
		}
		tried += 1;
		let r = exec(p, seed, Some(c.clone()), false);
		if r.violation.as_ref().map_or(false, |v| v.class == class) {
			let mut rec = r.streams;
			trim(&mut rec);
			if weight(&rec) < weight(best) {
				*best = rec;
				return true;
			}
		}
		false
	};
	loop {
		let before = weight(&best);
		// drop scheduling decisions, in halves first
		let mut n = best.sched.len().max(1);
		while n >= 1 {
			let mut i = 0;
			loop {
				let keys: Vec<u64> = best.sched.keys().copied().collect();
				if i >= keys.len() {
					break;
				}
				let mut c = best.clone();
				for k in keys.iter().skip(i).take(n) {
					c.sched.remove(k);
				}
				if !attempt(&c, &mut best) {
					i += n;
				}
			}
			if n == 1 {
				break;
			}
			n /= 2;
		}
		// the same for faults and workload: remove, then zero, then halve
		for which in 0..2 {
			let len = if which == 0 { best.fault.len() } else { best.work.len() };
			let mut n = len.max(1);
			while n >= 1 {
				let mut i = 0;
				loop {
					let len = if which == 0 { best.fault.len() } else { best.work.len() };
					if i >= len {
						break;
					}
					let end = (i + n).min(len);
					let mut ok = false;
					for mode in 0..3 {
						let mut c = best.clone();
						{
							let v = if which == 0 { &mut c.fault } else { &mut c.work };
							match mode {
								0 => {
									v.drain(i..end);
								}
								1 => v[i..end].iter_mut().for_each(|x| *x = 0),
								_ => v[i..end].iter_mut().for_each(|x| *x /= 2),
							}
						}
						if weight(&c) < weight(&best) && attempt(&c, &mut best) {
							ok = true;
							break;
						}
					}
					if !ok {
						i += n;
					}
				}
				if n == 1 {
					break;
				}
				n /= 2;
			}
		}
		if weight(&best) >= before || start.elapsed() > budget {
			break;
		}
	}
	(best, tried)
}

fn replay_value(p: &Prop, seed: u64, s: &Streams, class: &str, tried: u64) -> Value {
	let r = exec(p, seed, Some(s.clone()), true);
	let v = r.violation.clone();
	let n = r.log.len();
	let tail: Vec<&String> = r.log.iter().skip(n.saturating_sub(500)).collect();
	json!({
		"property": p.id,
		"seed": seed,
		"class": class,
		"detail": v.as_ref().map(|v| v.detail.clone()),
		"reproduces": v.map_or(false, |v| v.class == class),
		"streams": streams_json(s),
		"log_hash": format!("{:016x}", r.log_hash),
		"steps": r.steps,
		"minimisation_runs": tried,
		"history": r.log.iter().filter(|l| l.contains(" | ") || l.contains("***") || l.contains("panic")).take(400).collect::<Vec<_>>(),
		"trace_tail": tail,
	})
}

pub fn harness_main(props: &[Prop]) {
	let a: Vec<String> = std::env::args().collect();
	match a.get(1).map(|s| s.as_str()) {
		Some("list") => {
			for p in props {
				println!("{}", p.id);
			}
		}
		Some("run") => run_batch(props, &a),
		Some("one") => {
			// one SEED with its log
			let p = find(props, arg(&a, "--prop"));
			let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
			let r = exec(p, seed, None, true);
			for l in &r.log {
				if a.iter().any(|x| x == "--brief") && !(l.contains(" | ") || l.contains("***") || l.contains("panic")) {
					continue;
				}
				println!("{l}");
			}
			println!("steps {} decisions {} switches {} threads {} sim_ns {} leaked {} hash {:016x}", r.steps, r.decisions, r.switches, r.threads, r.sim_ns, r.leaked, r.log_hash);
			println!("probes {:?} faults {:?}", r.probes, r.faults);
			println!("violation {:?}", r.violation);
		}
		Some("hash") => {
			// log hashes of consecutive seeds
			let p = find(props, arg(&a, "--prop"));
			let s: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
			let n: u64 = arg(&a, "--count").and_then(|s| s.parse().ok()).unwrap_or(10);
			let st: u64 = arg(&a, "--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
			for i in 0..n {
				let r = exec(p, s + i * st, None, false);
				println!("{} {:016x}", s + i * st, r.log_hash);
			}
		}
		Some("replay") => {
			let f = std::fs::read_to_string(&a[2]).expect("cannot read the replay file");
			let v: Value = serde_json::from_str(&f).expect("bad replay file");
			let p = find(props, v["property"].as_str());
			let seed = v["seed"].as_u64().unwrap_or(0);
			let s = if v["streams"].is_null() { None } else { Some(streams_from(&v["streams"])) };
			let r = exec(p, seed, s, true);
			if a.iter().any(|x| x == "--log") {
				for l in &r.log {
					println!("{l}");
				}
			}
			println!("log_hash {:016x}", r.log_hash);
			match r.violation {
				Some(x) => {
					println!("violation {}\n{}", x.class, x.detail);
					std::process::exit(1);
				}
				None => println!("no violation"),
			}
		}
		_ => {
			eprintln!("usage: run|one|hash|replay|list");
			std::process::exit(2);
		}
	}
	std::io::stdout().flush().ok();
	// threads that could not be unwound are still parked
	std::process::exit(0);
}

fn find<'a>(props: &'a [Prop], id: Option<&str>) -> &'a Prop {
	match props.iter().find(|p| Some(p.id) == id) {
		Some(p) => p,
		None => {
			eprintln!("unknown property {id:?}");
			std::process::exit(2);
		}
	}
}

fn run_batch(props: &[Prop], a: &[String]) {
	let p = find(props, arg(a, "--prop"));
	let start: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
	let stride: u64 = arg(a, "--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
	let count: u64 = arg(a, "--count").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
	let secs: f64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
	let shrink: f64 = arg(a, "--shrink-secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
	let out = arg(a, "--out").map(|s| s.to_string());
	let state = arg(a, "--state").map(|s| s.to_string());
	let known: Vec<String> = arg(a, "--known")
		.and_then(|f| std::fs::read_to_string(f).ok())
		.map(|t| t.lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect())
		.unwrap_or_default();
	let t0 = Instant::now();
	let mut runs = 0u64;
	let (mut steps, mut decisions, mut ops, mut sim_ns, mut leaked, mut max_threads, mut nontrivial) = (0u64, 0u64, 0u64, 0u128, 0u64, 0usize, 0u64);
	let mut inter: HashSet<u64> = HashSet::new();
	let mut faults: BTreeMap<String, u64> = BTreeMap::new();
	let mut runs_with: BTreeMap<String, u64> = BTreeMap::new();
	let mut probes: BTreeMap<String, u64> = BTreeMap::new();
	let mut violations: Vec<Value> = vec![];
	let mut classes: HashSet<String> = HashSet::new();
	let mut known_hits: BTreeMap<String, (u64, u64)> = BTreeMap::new();
	let mut hashes: Vec<Value> = vec![];
	let mut samples: Vec<Value> = vec![];
	let mut seed = start;
	while runs < count && t0.elapsed().as_secs_f64() < secs {
		if let Some(f) = &state {
			let _ = std::fs::write(f, seed.to_string());
		}
		let r = exec(p, seed, None, false);
		runs += 1;
		steps += r.steps;
		ops += r.ops;
		decisions += r.decisions;
		sim_ns += r.sim_ns as u128;
		leaked += r.leaked as u64;
		max_threads = max_threads.max(r.threads);
		if (r.switches > 3 && r.decisions > 3) || r.ops > 3 {
			nontrivial += 1;
			if inter.len() < 3_000_000 {
				inter.insert(r.inter_hash ^ r.log_hash.rotate_left(17));
			}
		}
		for (k, v) in &r.faults {
			*faults.entry(k.to_string()).or_insert(0) += v;
			*runs_with.entry(k.to_string()).or_insert(0) += 1;
		}
		for (k, v) in &r.probes {
			*probes.entry(k.clone()).or_insert(0) += v;
		}
		if hashes.len() < 40 {
			hashes.push(json!([seed, format!("{:016x}", r.log_hash)]));
		}
		if samples.len() < 3 {
			samples.push(json!({"seed": seed, "what": r.note, "steps": r.steps, "threads": r.threads, "faults": r.faults.values().sum::<u64>()}));
		}
		if let Some(v) = &r.violation {
			if let Some(k) = known.iter().find(|k| **k == v.class) {
				let e = known_hits.entry(k.clone()).or_insert((0, seed));
				e.0 += 1;
			} else if classes.insert(v.class.clone()) {
				if let Some(f) = &state {
					let _ = std::fs::write(f, format!("shrink {seed}"));
				}
				let (s, tried) = minimise(p, seed, r.streams.clone(), &v.class, Duration::from_secs_f64(shrink));
				violations.push(replay_value(p, seed, &s, &v.class, tried));
				if classes.len() >= 4 {
					break;
				}
			}
		}
		seed += stride;
	}
	let o = json!({
		"property": p.id, "runs": runs, "first_seed": start, "stride": stride,
		"steps": steps, "decisions": decisions, "ops": ops, "sim_s": sim_ns as f64 / 1e9, "leaked": leaked, "max_threads": max_threads,
		"nontrivial": nontrivial,
		"faults": faults, "runs_with_fault": runs_with, "probes": probes,
		"violations": violations,
		"known": known_hits.iter().map(|(k, v)| json!([k, v.0, v.1])).collect::<Vec<_>>(),
		"hashes": hashes, "samples": samples, "wall_s": t0.elapsed().as_secs_f64(),
	});
	let text = serde_json::to_string(&o).unwrap();
	match out {
		Some(f) => {
			std::fs::write(&f, text).expect("cannot write the result");
			let mut v: Vec<u8> = Vec::with_capacity(inter.len() * 8);
			for h in &inter {
				v.extend_from_slice(&h.to_le_bytes());
			}
			std::fs::write(format!("{f}.inter"), v).expect("cannot write the result");
		}
		None => println!("{text}"),
	}
}
