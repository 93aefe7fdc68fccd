// C05: the Node adapter of packages/p4-analyzer between simulated standard streams and a simulated WebAssembly module.
import { createRequire } from "node:module";
import { Readable, Duplex } from "node:stream";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { harnessMain, settle, Ended } from "./sim.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const out = path.join(here, ".build", "adapter.js");
const entry = "/repo/packages/p4-analyzer/src/index.ts";

async function build() {
	const require = createRequire("/opt/veriftools/node/node_modules/");
	const esbuild = require("esbuild");
	await esbuild.build({
		entryPoints: [entry], bundle: true, format: "cjs", platform: "node", target: "node20", outfile: out, logLevel: "error", tsconfigRaw: "{}",
		plugins: [{
			name: "wasm",
			setup(b) {
				b.onResolve({ filter: /p4_analyzer_wasm$/ }, () => ({ path: "wasm", namespace: "sim" }));
				b.onLoad({ filter: /.*/, namespace: "sim" }, () => ({ contents: "export const LspServer = __sim.LspServer;", loader: "js" }));
			},
		}],
	});
}

let code = null;
const load = globals => {
	code ??= fs.readFileSync(out, "utf8");
	const module = { exports: {} };
	const names = Object.keys(globals);
	new Function("module", "exports", "require", ...names, code)(module, module.exports, createRequire(entry), ...names.map(k => globals[k]));
};

let current = null;
process.on("uncaughtException", e => current?.crashed(e));
process.on("unhandledRejection", e => current?.crashed(e));

const WORDS = ["a", "{}", "Content-Length: 7", "é", "漢", "😀", "\\r\\n", "[", "x".repeat(50)];

function body(sim, k) {
	let s = "";
	const n = sim.one([0, 1, 3, 20]);
	for (let i = 0; i < n; i++) s += sim.one(WORDS);
	if (sim.chance(1, 8)) s += "y".repeat(sim.one([100, 1900, 2048, 4000, 9000]) + sim.draw(200));
	if (sim.big && sim.chance(1, 6)) s += sim.one(["é", "漢字", "z"]).repeat(sim.range(1000, sim.one([20_000, 150_000, 600_000])));
	const text = JSON.stringify({ jsonrpc: "2.0", id: k, method: "m", params: { s } });
	// white space between the tokens may look like the end of the headers
	return Buffer.from(sim.chance(1, 8) ? text.replace('"id"', '\r\n\r\n"id"') : text);
}

function frame(sim, b) {
	const length = `Content-Length: ${b.length}\r\n`;
	const type = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
	const head = sim.chance(1, 8) ? (sim.chance(1, 2) ? type + length : length + type) : length;
	return Buffer.concat([Buffer.from(head + "\r\n"), b]);
}

/** Pieces of a stream as a pipe may deliver them: what was sent at once may arrive in parts, or with what came before. */
function pieces(sim, bytes, bounds) {
	const cuts = new Set();
	const coalesce = sim.faultPick(3);
	for (const b of bounds) if (coalesce === 0 || !sim.fault("coalesced", coalesce, 3)) cuts.add(b);
	const many = [0, 0, 3, 12][sim.faultPick(4)];
	for (let i = 0; i < many; i++) {
		if (!sim.fault("fragmented", 1, 2)) continue;
		const near = bounds[sim.faultPick(bounds.length)];
		cuts.add(sim.faultPick(2) ? sim.faultPick(bytes.length) : Math.max(0, near - sim.faultPick(40)));
	}
	if (bytes.length < 300 && sim.fault("byte by byte", 1, 12)) for (let i = 0; i < bytes.length; i++) cuts.add(i);
	const r = [];
	let from = 0;
	for (const c of [...cuts, bytes.length].sort((x, y) => x - y)) {
		for (; from < c; from += 65536) r.push(bytes.subarray(from, Math.min(c, from + 65536)));
		from = Math.max(from > c ? c : from, c);
	}
	return r;
}

async function c05(sim) {
	const st = { received: [], out: [], crash: null, exit: null, stops: 0, started: false, ended: false, unref: false, pendingTimers: 0 };
	const run = { crashed: e => { if (current === run && !(e instanceof Ended)) { st.crash ??= String(e?.stack ?? e).split("\n").slice(0, 3).join(" / "); sim.log("crash"); } } };
	current = run;
	// now and then, a long stream with large messages
	sim.big = sim.chance(1, 200);
	if (sim.big) sim.probe("large");
	const n = sim.big ? sim.range(5, sim.one([20, 400])) : sim.range(1, sim.one([3, 10, 30]));
	const signals = sim.chance(1, 5) ? sim.range(1, 2) : 0;
	const exits = sim.chance(1, 2);
	const garbage = !signals && sim.chance(1, 12);
	sim.note(`${n} messages, ${signals} interrupts${exits ? ", exit" : ""}${garbage ? ", garbage" : ""}`);
	const sent = [];
	for (let k = 0; k < n; k++) sent.push(body(sim, k));
	if (exits) sent.push(Buffer.from('{"jsonrpc":"2.0","method":"exit"}'));

	// standard streams
	const stdin = new Readable({ read() {}, highWaterMark: 16384 });
	stdin.unref = () => { st.unref = true; };
	stdin.ref = () => {};
	const slow = sim.fault("slow stdout", 1, 4);
	const stdout = new Duplex({
		read() {},
		write(chunk, _, done) {
			st.out.push(Buffer.from(chunk));
			if (slow) sim.at_(sim.faultPick(50), "stdout", "stdout drained", done);
			else done();
		},
	});
	const errors = [];
	const handlers = {};
	const on = (what, f) => { (handlers[what] ??= []).push(f); return proc; };
	const proc = {
		stdin, stdout, stderr: new Duplex({ read() {}, write(c, _, d) { errors.push(String(c)); d(); } }),
		on, once: on, addListener: on, off() { return proc; }, removeListener() { return proc; },
		exit(c) { st.exit ??= c ?? 0; sim.log(`exit ${c}`); throw new Ended(); },
		nextTick: (f, ...a) => process.nextTick(f, ...a), argv: ["node", "p4analyzer"], env: {}, platform: "linux", pid: 1, cwd: () => "/", version: process.version, versions: process.versions,
		set exitCode(c) { st.exitCode = c; }, get exitCode() { return st.exitCode; },
	};
	const guard = f => (...a) => { try { f(...a); } catch (e) { run.crashed(e); } };
	const immediate = (f, ...a) => sim.at_(0, "immediate", "immediate", guard(() => f(...a)));
	const timer = (f, ms, ...a) => sim.at_(ms ?? 0, `timer ${ms}`, "timer", guard(() => f(...a)));
	const cons = Object.fromEntries(["log", "info", "warn", "debug"].map(k => [k, (...a) => { st.out.push(Buffer.from(a.join(" ") + "\n")); }]));
	cons.error = (...a) => { errors.push(a.join(" ")); };

	// the WebAssembly module
	const answers = [];
	let finish;
	const done = new Promise((ok, no) => { finish = { ok, no }; });
	done.catch(() => {});
	class LspServer {
		constructor(callback) { this.callback = callback; }
		start() {
			st.started = true;
			return sim.chance(1, 10) ? Promise.resolve().then(() => done) : done;
		}
		stop() {
			st.stops++;
			sim.at_(sim.faultPick(2) * sim.faultPick(100), "server", "server stopped", () => { st.ended = true; finish.no(new Error("The server was stopped.")); });
		}
		async sendRequest(buffer) {
			if (!st.started) sim.fail("request-mismatch", "a request before the module was started");
			await null; // the module reads the buffer when its task is first polled
			const b = Buffer.from(buffer);
			st.received.push(b);
			sim.log(`request ${b.length}`);
			if (st.stops || st.ended) throw new Error("Unexpected error writing request message to request channel.");
			if (b.includes('"exit"')) {
				sim.at_(sim.draw(3), "server", "server ends", () => { st.ended = true; finish.ok(); });
				return;
			}
			const slow = sim.fault("slow module", 1, 4) ? sim.faultPick(200) : 0;
			const k = st.received.length - 1;
			for (let i = sim.draw(3); i > 0; i--) {
				sim.at_(slow + sim.draw(20), "server", "response", () => {
					if (st.ended) return;
					const r = body(sim, 1000 + answers.length);
					answers.push(r);
					this.callback(Buffer.from(r));
				});
			}
			if (slow) await new Promise(ok => sim.at_(slow, `request ${k}`, "request taken", ok));
		}
	}
	try {
		load({ process: proc, setImmediate: immediate, setTimeout: timer, clearTimeout: e => sim.cancel(e), clearImmediate: e => sim.cancel(e), console: cons, __sim: { LspServer } });
	} catch (e) {
		if (!(e instanceof Ended)) throw e;
	}

	// the client
	const frames = sent.map(b => frame(sim, b));
	let good = sent;
	if (garbage) {
		const k = sim.draw(frames.length + 1);
		frames.splice(k, 0, Buffer.from(sim.one(["Content-Type: x\r\n\r\n{}", "\r\n\r\n", "GET / HTTP/1.1\r\n\r\n"])));
		good = sent.slice(0, k);
	}
	const stream = Buffer.concat(frames);
	const bounds = [];
	frames.reduce((a, f) => (bounds.push(a + f.length), a + f.length), 0);
	let t = 0, offset = 0;
	for (const p of pieces(sim, stream, bounds)) {
		if (sim.chance(1, 2)) t += sim.draw(30);
		// what a stream hands out is a part of a larger buffer
		const slab = Buffer.alloc(p.length + 700, 0x2a);
		const at = sim.chance(1, 2) ? 0 : sim.draw(600);
		p.copy(slab, at);
		sim.at_(t, "stdin", `stdin ${offset}+${p.length}`, guard(() => { stdin.push(slab.subarray(at, at + p.length)); }));
		offset += p.length;
	}
	if (sim.chance(1, 3)) sim.at_(t + sim.draw(50), "stdin", "stdin ends", () => stdin.push(null));
	for (let i = 0; i < signals; i++) {
		sim.at_(1 + sim.draw(t + 30), "signal", "interrupt", guard(() => { for (const f of handlers.SIGINT ?? []) f("SIGINT"); st.interrupts = (st.interrupts ?? 0) + 1; }));
	}

	for (let i = 0; i < 20_000; i++) {
		await settle();
		if (sim.failure) throw sim.failure;
		if (st.exit !== null || st.crash) break;
		const got = st.received.length;
		for (let k = st.seen ?? 0; k < got; k++) {
			if (!good[k]?.equals(st.received[k])) {
				sim.fail("request-mismatch", `request ${k} of ${good.length} is ${JSON.stringify(st.received[k].toString().slice(0, 200))} instead of ${JSON.stringify(good[k]?.toString().slice(0, 200))}`);
			}
		}
		st.seen = got;
		if (!sim.step()) break;
	}
	await settle();
	current = null;
	if (sim.failure) throw sim.failure;
	const over = st.stops > 0 || st.ended;
	if (st.crash && !garbage && !over) sim.fail("crash", st.crash);
	if (!st.crash && st.exit === null && !over && st.received.length !== good.length && !garbage) {
		sim.fail("request-lost", `${st.received.length} of ${good.length} messages have been passed on once all of them have arrived`);
	}
	const want = Buffer.concat(answers.map(b => Buffer.concat([Buffer.from(`Content-Length: ${b.length}\r\n\r\n`), b])));
	const got = Buffer.concat(st.out);
	if (!want.equals(got) && !(slow && st.exit !== null && want.subarray(0, got.length).equals(got)) && !(st.crash && want.subarray(0, got.length).equals(got))) {
		sim.fail("response-mismatch", `stdout is ${JSON.stringify(got.toString().slice(0, 300))} instead of ${JSON.stringify(want.toString().slice(0, 300))}`);
	}
	if (signals && st.interrupts) {
		if (!st.stops && !st.ended && st.exit === null && !st.crash) sim.fail("interrupt", "an interrupt did not stop the server");
		if (st.stops > 1) sim.fail("interrupt", "the server was stopped twice");
		if (signals > 1 && (st.interrupts ?? 0) > 1 && st.exit === null && !st.crash) sim.fail("interrupt", "a second interrupt did not end the process");
		sim.probe("interrupted");
	}
	if (st.exit !== null && !(signals > 1)) sim.fail("early-exit", `the process ended with ${st.exit} without a reason`);
	if (over && !st.crash && st.exit === null && !(stdin.isPaused() || stdin.destroyed || stdin.readableEnded || st.unref)) {
		sim.fail("does-not-end", "the process keeps waiting for input after the server has ended");
	}
	sim.probe(over ? "ended" : "all input consumed");
	if (garbage) sim.probe("garbage");
	sim.log(`${st.received.length} requests, ${answers.length} responses`);
}

await harnessMain([{ id: "C05", main: c05 }], build);
