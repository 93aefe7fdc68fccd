// A seeded simulator for Node programs: every choice comes from one of three recorded streams, as in simrt.
import { createHash } from "node:crypto";

function sfc32(seed, salt) {
	let a = seed >>> 0, b = Math.floor(seed / 4294967296) >>> 0, c = salt >>> 0, d = 1;
	const next = () => {
		const t = (((a + b) >>> 0) + d) >>> 0;
		d = (d + 1) >>> 0;
		a = (b ^ (b >>> 9)) >>> 0;
		b = (c + (c << 3)) >>> 0;
		c = ((c << 21) | (c >>> 11)) >>> 0;
		c = (c + t) >>> 0;
		return t;
	};
	for (let i = 0; i < 15; i++) next();
	return next;
}

export class Violation extends Error {
	constructor(cls, detail) {
		super(`${cls}: ${detail}`);
		this.cls = cls;
		this.detail = detail;
	}
}

/** What is thrown to end a run from within the code under test. */
export class Ended extends Error {}

export class Sim {
	constructor(seed, replay, keepLog) {
		this.seed = seed;
		this.replay = replay;
		this.rng = [1, 2, 3].map(k => sfc32(seed, k));
		this.rec = { work: [], fault: [], sched: [] };
		this.at = { work: 0, fault: 0, sched: 0 };
		this.replaySched = replay && new Map(replay.sched);
		this.faults = {};
		this.probes = {};
		this.lines = [];
		this.keepLog = keepLog;
		this.hash = createHash("sha1");
		this.inter = createHash("sha1");
		this.now = 0;
		this.steps = this.decisions = this.switches = this.ops = 0;
		this.events = [];
		this.seq = 0;
		this.noteText = "";
		this.failure = null;
	}

	pick(stream, k, n) {
		if (n <= 1) return 0;
		const i = this.at[stream]++;
		if (this.replay) {
			const v = stream === "sched" ? this.replaySched.get(i) ?? 0 : this.replay[stream][i] ?? 0;
			const r = Math.min(v, n - 1);
			if (stream === "sched") r && this.rec.sched.push([i, r]);
			else this.rec[stream].push(r);
			return r;
		}
		const r = this.rng[k]() % n;
		if (stream === "sched") r && this.rec.sched.push([i, r]);
		else this.rec[stream].push(r);
		return r;
	}

	draw(n) { return this.pick("work", 0, n); }
	range(lo, hi) { return lo + this.draw(hi - lo + 1); }
	chance(num, den) { return this.draw(den) >= den - num; }
	one(list) { return list[this.draw(list.length)]; }

	/** A fault of this kind, with this chance. 0 in the stream is always 'no fault'. */
	fault(kind, num, den) {
		const r = this.pick("fault", 1, den) >= den - num;
		if (r) this.faults[kind] = (this.faults[kind] ?? 0) + 1;
		return r;
	}
	faultPick(n) { return this.pick("fault", 1, n); }

	/** An operation of a history: runs with several are worth counting even where little competes. */
	op() { this.ops++; }
	probe(name) { this.probes[name] = (this.probes[name] ?? 0) + 1; }
	note(text) { this.noteText = text; this.log(text); }
	log(text) {
		const l = `[${this.now}] | ${text}`;
		this.hash.update(l + "\n");
		if (this.keepLog) this.lines.push(l);
	}
	/** The first violation counts, wherever it is noticed. */
	fail(cls, detail) {
		if (!this.failure) {
			this.failure = new Violation(cls, detail);
			this.log(`*** ${cls}: ${detail}`);
		}
		throw this.failure;
	}

	/** Runs `f` at the earliest after so many simulated milliseconds; events of one lane keep their order. */
	at_(delay, lane, what, f) {
		const e = { t: this.now + delay, lane, what, f, seq: this.seq++ };
		this.events.push(e);
		return e;
	}
	cancel(e) { this.events = this.events.filter(x => x !== e); }

	/** One event: the scheduler chooses among those that are due. */
	step() {
		if (this.events.length === 0) return false;
		const t = Math.min(...this.events.map(e => e.t));
		if (t > this.now) this.now = t;
		const seen = new Set();
		const due = this.events.filter(e => {
			if (e.t > this.now || (e.lane !== null && seen.has(e.lane))) return false;
			if (e.lane !== null) seen.add(e.lane);
			return true;
		});
		const e = due[this.pick("sched", 2, due.length)];
		if (due.length > 1) {
			this.decisions++;
			this.inter.update(e.what);
		}
		if (this.last !== e.lane) this.switches++;
		this.last = e.lane;
		this.steps++;
		this.cancel(e);
		this.log(e.what);
		e.f();
		return true;
	}
}

/** Lets everything that is ready to run do so. */
export const settle = () => new Promise(r => setImmediate(r));

async function exec(prop, seed, replay, keepLog) {
	const sim = new Sim(seed, replay, keepLog);
	let v = null;
	try {
		await prop.main(sim);
	} catch (e) {
		if (e instanceof Violation) v = e;
		else if (!(e instanceof Ended)) {
			const where = String(e?.stack ?? e).split("\n").slice(0, 6).join(" / ");
			v = new Violation("harness-error", where);
		}
	}
	v = sim.failure ?? v;
	return { sim, v, hash: sim.hash.copy().digest("hex").slice(0, 16), inter: sim.inter.digest("hex").slice(0, 16) };
}

function weight(s) {
	return s.work.length * 3 + s.work.reduce((a, x) => a + Math.min(x, 64), 0) + s.fault.length + s.fault.filter(x => x).length * 8 + s.sched.length * 6;
}
function trim(s) {
	for (const k of ["work", "fault"]) while (s[k].at(-1) === 0) s[k].pop();
	return s;
}

async function minimise(prop, seed, streams, cls, secs) {
	let best = trim(streams), tried = 0;
	const end = Date.now() + secs * 1000;
	const attempt = async c => {
		if (Date.now() > end) return false;
		tried++;
		const r = await exec(prop, seed, c, false);
		if (r.v?.cls !== cls) return false;
		const rec = trim(r.sim.rec);
		if (weight(rec) >= weight(best)) return false;
		best = rec;
		return true;
	};
	for (;;) {
		const before = weight(best);
		for (const k of ["sched", "fault", "work"]) {
			for (let n = Math.max(1, best[k].length); n >= 1; n = n === 1 ? 0 : n >> 1) {
				for (let i = 0; i < best[k].length; ) {
					let ok = false;
					for (let mode = 0; mode < (k === "sched" ? 1 : 3) && !ok; mode++) {
						const c = structuredClone(best);
						if (mode === 0) c[k].splice(i, n);
						else for (let j = i; j < Math.min(i + n, c[k].length); j++) c[k][j] = mode === 1 ? 0 : c[k][j] >> 1;
						ok = weight(c) < weight(best) && await attempt(c);
					}
					if (!ok) i += n;
				}
			}
		}
		if (weight(best) >= before || Date.now() > end) return [best, tried];
	}
}

async function replayValue(prop, seed, s, cls, tried) {
	const r = await exec(prop, seed, s, true);
	return {
		property: prop.id, seed, class: cls, detail: r.v?.detail ?? null, reproduces: r.v?.cls === cls, streams: s, log_hash: r.hash,
		steps: r.sim.steps, minimisation_runs: tried, history: r.sim.lines.slice(0, 400), trace_tail: [],
	};
}

export async function harnessMain(props, build) {
	const fs = await import("node:fs");
	const a = process.argv.slice(2);
	const arg = (k, d) => (a.includes(k) ? a[a.indexOf(k) + 1] : d);
	const find = id => props.find(p => p.id === id) ?? (console.error(`unknown property ${id}`), process.exit(2));
	const n = (k, d) => Number(arg(k, d));
	switch (a[0]) {
	case "build":
		await build();
		break;
	case "hash": {
		const p = find(arg("--prop"));
		for (let i = 0; i < n("--count", 10); i++) {
			const seed = n("--seed", 1) + i * n("--stride", 1);
			console.log(seed, (await exec(p, seed, null, false)).hash);
		}
		break;
	}
	case "one": {
		const r = await exec(find(arg("--prop")), n("--seed", 1), null, true);
		r.sim.lines.forEach(l => console.log(l));
		console.log("probes", r.sim.probes, "faults", r.sim.faults);
		console.log("violation", r.v?.cls, r.v?.detail);
		break;
	}
	case "replay": {
		const v = JSON.parse(fs.readFileSync(a[1], "utf8"));
		const r = await exec(find(v.property), v.seed, v.streams, true);
		if (a.includes("--log")) r.sim.lines.forEach(l => console.log(l));
		console.log("log_hash", r.hash);
		if (r.v) console.log(`violation ${r.v.cls}\n${r.v.detail}`);
		else console.log("no violation");
		process.exit(r.v ? 1 : 0);
	}
	case "run": {
		const p = find(arg("--prop"));
		const start = n("--seed", 1), stride = n("--stride", 1), count = n("--count", Infinity), secs = n("--secs", 10), shrink = n("--shrink-secs", 20);
		const known = arg("--known") ? fs.readFileSync(arg("--known"), "utf8").split("\n").filter(l => l) : [];
		const t0 = Date.now();
		const o = { property: p.id, runs: 0, first_seed: start, stride, steps: 0, decisions: 0, ops: 0, sim_s: 0, leaked: 0, max_threads: 1, nontrivial: 0,
			faults: {}, runs_with_fault: {}, probes: {}, violations: [], known: {}, hashes: [], samples: [], wall_s: 0 };
		const inter = new Set(), classes = new Set();
		for (let seed = start; o.runs < count && Date.now() - t0 < secs * 1000; seed += stride) {
			if (arg("--state")) fs.writeFileSync(arg("--state"), String(seed));
			const r = await exec(p, seed, null, false);
			const s = r.sim;
			o.runs++;
			o.steps += s.steps;
			o.decisions += s.decisions;
			o.ops += s.ops;
			o.sim_s += s.now / 1000;
			if ((s.switches > 3 && s.decisions > 3) || s.ops > 3) {
				o.nontrivial++;
				if (inter.size < 3_000_000) inter.add(r.inter.slice(0, 8) + r.hash.slice(0, 8));
			}
			for (const [k, c] of Object.entries(s.faults)) {
				o.faults[k] = (o.faults[k] ?? 0) + c;
				o.runs_with_fault[k] = (o.runs_with_fault[k] ?? 0) + 1;
			}
			for (const [k, c] of Object.entries(s.probes)) o.probes[k] = (o.probes[k] ?? 0) + c;
			if (o.hashes.length < 40) o.hashes.push([seed, r.hash]);
			if (o.samples.length < 3) o.samples.push({ seed, what: s.noteText, steps: s.steps, threads: 1, faults: Object.values(s.faults).reduce((x, y) => x + y, 0) });
			if (r.v) {
				if (known.includes(r.v.cls)) (o.known[r.v.cls] ??= [0, seed])[0]++;
				else if (!classes.has(r.v.cls)) {
					classes.add(r.v.cls);
					if (arg("--state")) fs.writeFileSync(arg("--state"), `shrink ${seed}`);
					const [m, tried] = await minimise(p, seed, structuredClone(s.rec), r.v.cls, shrink);
					o.violations.push(await replayValue(p, seed, m, r.v.cls, tried));
					if (classes.size >= 4) break;
				}
			}
		}
		o.wall_s = (Date.now() - t0) / 1000;
		o.known = Object.entries(o.known).map(([k, v]) => [k, ...v]);
		if (arg("--out")) {
			fs.writeFileSync(arg("--out"), JSON.stringify(o));
			fs.writeFileSync(arg("--out") + ".inter", Buffer.from([...inter].join(""), "hex"));
		} else console.log(JSON.stringify(o));
		break;
	}
	default:
		console.error("usage: build|run|one|hash|replay");
		process.exit(2);
	}
	process.exit(0);
}
