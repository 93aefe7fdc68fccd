// C21: the Visual Studio Code extension of packages/p4-analyzer-vscode between a simulated editor, disk and language server.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { harnessMain, settle } from "./sim.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const out = path.join(here, ".build", "extension.js");
const entry = "/repo/packages/p4-analyzer-vscode/src/index.ts";

async function build() {
	const require = createRequire("/opt/veriftools/node/node_modules/");
	const esbuild = require("esbuild");
	const sim = { vscode: "vscode", "vscode-languageclient": "client", "vscode-languageclient/node": "client", "node:fs/promises": "disk", "fs/promises": "disk", "node:fs": "fs", fs: "fs" };
	await esbuild.build({
		entryPoints: [entry], bundle: true, format: "cjs", platform: "node", target: "node20", outfile: out, logLevel: "error", tsconfigRaw: "{}",
		plugins: [{
			name: "editor",
			setup(b) {
				b.onResolve({ filter: /^(vscode(-languageclient(\/node)?)?|(node:)?fs(\/promises)?)$/ }, a => ({ path: sim[a.path], namespace: "sim" }));
				b.onLoad({ filter: /.*/, namespace: "sim" }, a => ({ contents: `module.exports = __sim[${JSON.stringify(a.path)}];`, loader: "js" }));
			},
		}],
	});
}

let code = null;
function load(sim, require) {
	code ??= fs.readFileSync(out, "utf8");
	const module = { exports: {} };
	new Function("module", "exports", "require", "__sim", "process", "console", code)(module, module.exports, require, sim, { env: {}, platform: "linux" }, { log() {}, error() {}, warn() {}, info() {} });
	return module.exports;
}

/** As Uri of Visual Studio Code: what is parsed is decoded, what is shown is encoded. */
class Uri {
	constructor(scheme, authority, path) { this.scheme = scheme; this.authority = authority; this.path = path; this.query = this.fragment = ""; }
	static parse(s) {
		const m = /^([a-z][a-z0-9+.-]*):(?:\/\/([^/?#]*))?([^?#]*)/i.exec(s);
		if (!m) throw new Error(`[UriError]: Scheme is missing: {scheme: "", path: "${s}"}`);
		const dec = x => { try { return decodeURIComponent(x); } catch { return x; } };
		return new Uri(m[1], dec(m[2] ?? ""), dec(m[3]) || "/");
	}
	static file(p) { return new Uri("file", "", p); }
	static joinPath(u, ...p) { return new Uri(u.scheme, u.authority, path.posix.join(u.path, ...p)); }
	static from(c) { return new Uri(c.scheme, c.authority ?? "", c.path ?? ""); }
	with(c) { return new Uri(c.scheme ?? this.scheme, c.authority ?? this.authority, c.path ?? this.path); }
	get fsPath() { return this.path.length > 1 ? this.path.replace(/\/$/, "") : this.path; }
	toString(skip) {
		const enc = x => skip ? x : encodeURIComponent(x).replace(/[!'()*]/g, c => "%" + c.charCodeAt(0).toString(16).toUpperCase());
		return `${this.scheme}://${enc(this.authority)}${this.path.split("/").map(enc).join("/")}`;
	}
	toJSON() { return { scheme: this.scheme, path: this.path }; }
}

class RelativePattern {
	constructor(base, pattern) {
		this.baseUri = typeof base === "string" ? Uri.file(base) : base instanceof Uri ? base : base.uri;
		this.base = this.baseUri.fsPath;
		this.pattern = pattern;
	}
}

const trim = p => p.length > 1 ? p.replace(/\/$/, "") : p;
const below = (folder, file) => trim(folder) === "/" || file.startsWith(trim(folder) + "/");

function matches(pattern, rel) {
	let r = "";
	for (let i = 0; i < pattern.length; i++) {
		if (pattern.startsWith("**/", i)) { r += "(?:.*/)?"; i += 2; }
		else if (pattern.startsWith("**", i)) { r += ".*"; i++; }
		else if (pattern[i] === "*") r += "[^/]*";
		else if (pattern[i] === "?") r += "[^/]";
		else if (pattern[i] === "{") r += "(?:";
		else if (pattern[i] === "}") r += ")";
		else if (pattern[i] === ",") r += "|";
		else r += pattern[i].replace(/[.+^$()|[\]\\]/g, "\\$&");
	}
	return new RegExp(`^${r}$`, "u").test(rel);
}

const NAMES = ["a", "b", "core", "with space", "[x]", "a+b", "é", "漢字", "50%", "a#b", "what?", "sub", "v1.0"];
const CONTENTS = ["", "header h {}\n", "é漢😀", "\ufeffbom", "a\r\nb", "x".repeat(70000), "é".repeat(40000), "a漢字".repeat(60000), "\u0000"];
const PATTERNS = ["**/*.p4", "*.p4", "**/*.h"];

let current = null;
process.on("uncaughtException", e => current?.crashed(e));
process.on("unhandledRejection", e => current?.crashed(e));

async function c21(sim) {
	const st = { crash: null, messages: [], clients: [], open: 0 };
	const run = { crashed: e => { if (current === run) { st.crash ??= String(e?.stack ?? e).split("\n").slice(0, 3).join(" / "); sim.log("crash"); } } };
	current = run;

	// the disk: what each file was, and since when
	const history = new Map();
	const put = (p, v) => { if (!history.has(p)) history.set(p, [[-1, null]]); history.get(p).push([sim.seq2++, v]); };
	sim.seq2 = 0;
	const now = p => history.get(p)?.at(-1)[1] ?? null;
	const versions = (p, from) => {
		const h = history.get(p) ?? [[-1, null]];
		return h.filter(([, v], i) => i === h.length - 1 || h[i + 1][0] >= from).map(([, v]) => v);
	};
	const folders = [];
	for (let i = sim.range(1, 4); i > 0; i--) {
		const base = folders.length && sim.chance(1, 4) ? trim(sim.one(folders)) : sim.one(["", "/home/u", "/w"]);
		const f = `${base}/${sim.one(NAMES)}${sim.chance(1, 6) ? sim.one(["2", "-old"]) : ""}`;
		if (!folders.includes(f)) folders.push(f);
	}
	const files = [];
	// now and then, a large workspace
	const big = sim.chance(1, 200);
	if (big) sim.probe("large");
	for (let i = big ? sim.range(200, 1500) : sim.range(0, 10); i > 0; i--) {
		const dir = sim.chance(1, 8) ? "/elsewhere" : sim.one(folders);
		const f = `${dir}/${sim.chance(1, 3) ? sim.one(NAMES) + "/" : ""}${big ? i : ""}${sim.one(NAMES)}${sim.one([".p4", ".p4", ".p4", ".h", ".txt", ".p4x"])}`;
		files.push(f);
		if (!sim.chance(1, 10)) put(f, sim.one(CONTENTS));
	}
	const list = folders.map((f, index) => ({ uri: Uri.file(f), name: path.posix.basename(f), index }));
	const delay = sim.fault("slow disk", 1, 3) ? 200 : 5;
	const failing = sim.fault("failing disk", 1, 3);
	const later = (what, f) => new Promise((ok, no) => sim.at_(sim.faultPick(delay), `disk ${st.open++}`, what, () => { try { ok(f()); } catch (e) { no(e); } }));
	const failed = new Set();
	const error = (c, p) => Object.assign(new Error(`${c}: ${p}`), { code: c });
	const readBytes = p => later(`read ${p}`, () => {
		const v = now(p);
		if (failing && sim.fault("read error", 1, 5)) { failed.add(p); throw error(sim.one(["EACCES", "EIO", "EMFILE"]), p); }
		if (v === null) throw error("ENOENT", p);
		return Buffer.from(v);
	});
	const pathOf = p => p instanceof Uri ? p.fsPath : typeof p === "string" ? p : p instanceof URL ? fileURLToPath(p) : String(p);
	const disk = {
		readFile: async (p, o) => {
			const b = await readBytes(pathOf(p));
			const e = typeof o === "string" ? o : o?.encoding;
			return e ? b.toString(e) : b;
		},
	};
	let listFailures = 0;
	const workspace = {
		get workspaceFolders() { return list; },
		getWorkspaceFolder: u => list.filter(f => trim(f.uri.path) === trim(u.path) || below(f.uri.path, u.path)).sort((x, y) => y.uri.path.length - x.uri.path.length)[0],
		findFiles: (include, exclude, max) => later(`find ${include.pattern ?? include}`, () => {
			if (failing && sim.fault("search error", 1, 5)) { listFailures++; throw new Error("search failed"); }
			const bases = typeof include === "string" ? list.map(f => f.uri.path) : [include.baseUri.path];
			const all = [...history.keys()].filter(p => now(p) !== null && bases.some(b => below(b, p) && matches(include.pattern ?? include, p.slice(trim(b).length + (trim(b) === "/" ? 0 : 1)))));
			for (let i = all.length - 1; i > 0; i--) { const j = sim.faultPick(i + 1); [all[i], all[j]] = [all[j], all[i]]; }
			return all.slice(0, max ?? all.length).map(p => Uri.file(p));
		}),
		fs: { readFile: async u => new Uint8Array(await readBytes(u.fsPath)) },
		getConfiguration: section => ({
			get: (k, d) => { const v = settings[section ? `${section}.${k}` : k]; return v === undefined ? d : v; },
			has: k => settings[section ? `${section}.${k}` : k] !== undefined,
			inspect: () => undefined,
		}),
	};
	const native = sim.chance(1, 2);
	const settings = {
		"p4-analyzer.server.absoluteServerPath": native ? sim.one(["/opt/p4/p4analyzer", "/with space/p4analyzer"]) : sim.one([null, ""]),
		"p4-analyzer.server.logPath": sim.one([null, "", "/var/log/p4", "/with space/log"]),
		"p4-analyzer.server.logLevel": sim.one(["trace", "debug", "info", "warn", "error"]),
	};
	const broken = sim.chance(1, 10) ? sim.one(native ? ["client", "channel"] : ["client", "channel", "module"]) : null;

	// the language client
	class BaseLanguageClient {
		constructor(id, name, server, options) {
			if (broken === "client") throw new Error("no client");
			Object.assign(this, { id, name, server, options, handlers: new Map(), started: 0, stopped: 0 });
			st.clients.push(this);
		}
		onRequest(method, f) { this.handlers.set(method?.method ?? method, f); return { dispose() {} }; }
		onNotification() { return { dispose() {} }; }
		async setTrace(t) { this.trace = t; }
		start() {
			this.started++;
			if (![...this.handlers.keys()].includes("p4analyzer/fileContents") || !this.handlers.has("p4analyzer/enumerateFolder")) sim.fail("not-served", "the client was started before it could answer the requests of the server");
			return new Promise(ok => sim.at_(sim.draw(50), "server", "server started", ok));
		}
		stop() {
			this.stopped++;
			return new Promise(ok => sim.at_(sim.draw(50), "server", "server stopped", () => { this.gone = true; ok(); }));
		}
	}
	class LanguageClient extends BaseLanguageClient {}
	const client = {
		BaseLanguageClient, LanguageClient, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, Trace: { Off: 0, Messages: 1, Compact: 2, Verbose: 3 },
		TextDocumentIdentifier: { create: uri => ({ uri }) },
	};
	const vscode = {
		Uri, RelativePattern, workspace,
		window: {
			createOutputChannel: () => { if (broken === "channel") throw new Error("no channel"); return { appendLine() {}, append() {}, dispose() {} }; },
			showErrorMessage: async m => { st.messages.push(m); },
			showWarningMessage: async () => {}, showInformationMessage: async () => {},
		},
	};
	const req = Object.assign(m => { throw new Error(`Cannot find module '${m}'`); }, {
		resolve: (m, o) => {
			if (broken === "module") throw new Error(`Cannot find module '${m}'`);
			return `${o?.paths?.[0]}/node_modules/${m}/lib/index.js`;
		},
	});
	const ext = load({ vscode, client, disk, fs: { promises: disk, readFile: (p, o, f) => disk.readFile(p, o).then(v => f(null, v), f) } }, req);
	sim.note(`folders ${folders.join(", ")}; ${files.length} files; ${native ? "native" : "module"}${broken ? `, no ${broken}` : ""}`);

	let outcome = null;
	ext.activate({ extensionPath: "/ext", subscriptions: [] }).then(() => { outcome = "active"; }, e => { outcome = e; });
	const pump = async until => {
		for (let i = 0; i < 5000; i++) {
			await settle();
			if (sim.failure) throw sim.failure;
			if (st.crash) sim.fail("crash", st.crash);
			if (until?.()) return;
			if (!sim.step()) return;
		}
	};
	await pump(() => outcome);
	if (broken) {
		if (outcome === "active" || outcome === null) sim.fail("failure-hidden", `activation ${outcome ? "succeeded" : "did not end"} although there was no ${broken}`);
		if (st.messages.length !== 1) sim.fail("failure-hidden", `${st.messages.length} messages about a failed activation`);
		await ext.deactivate();
		sim.probe("activation failed");
		return;
	}
	if (outcome !== "active") sim.fail("not-activated", String(outcome));
	if (st.clients.length !== 1 || st.clients[0].started !== 1) sim.fail("not-activated", `${st.clients.length} clients`);
	const c = st.clients[0];
	const s = c.server.run ?? c.server;
	const wantArgs = settings["p4-analyzer.server.logPath"] ? ["--logpath", settings["p4-analyzer.server.logPath"], "--loglevel", settings["p4-analyzer.server.logLevel"]] : [];
	if (native ? s.command !== settings["p4-analyzer.server.absoluteServerPath"] || JSON.stringify(s.args ?? []) !== JSON.stringify(wantArgs) || s.module
		: s.module !== "/ext/node_modules/p4-analyzer/lib/index.js" || s.command) sim.fail("wrong-server", `${JSON.stringify(s)} with ${JSON.stringify(settings)}`);
	if ((s.transport ?? 0) !== 0) sim.fail("wrong-server", "not over standard streams");

	// the server asks, while the disk changes
	const answers = [];
	const n = big ? sim.range(20, 100) : sim.range(1, 12);
	let t = 0;
	for (let k = 0; k < n; k++) {
		t += sim.draw(4) * sim.draw(60);
		if (sim.chance(1, 4) && files.length) {
			const f = sim.one(files), v = sim.chance(1, 4) ? null : sim.one(CONTENTS);
			sim.at_(t, "disk", `change ${f}`, () => put(f, v));
			continue;
		}
		const list = sim.chance(1, 2);
		const target = list ? sim.chance(1, 6) ? sim.one(["/elsewhere", "/nowhere/x"]) : sim.one(folders) : sim.chance(1, 8) || !files.length ? "/nowhere/x.p4" : sim.one(files);
		const pattern = sim.one(PATTERNS);
		const uri = Uri.file(target).toString() + (list && sim.chance(1, 3) ? "/" : "");
		sim.at_(t, "server", `ask ${list ? pattern : "contents"} ${target}`, () => {
			const a = { list, target, pattern, from: sim.seq2++, failures: listFailures, settled: false };
			answers.push(a);
			sim.op();
			failed.delete(target);
			const p = Promise.resolve().then(() => c.handlers.get(list ? "p4analyzer/enumerateFolder" : "p4analyzer/fileContents")(list ? { uri, filePattern: pattern } : { uri }));
			p.then(v => { a.value = v; }, e => { a.error = e; }).then(() => {
				a.settled = true;
				sim.log(`answer ${a.error ? "error" : "ok"} ${target}`);
				check(a);
			});
		});
	}
	const check = a => {
		try {
			if (a.list) {
				const unknown = !folders.some(f => f === a.target || below(f, a.target));
				if (a.error) {
					if (!unknown && listFailures === a.failures) sim.fail("folder-refused", `${a.target}: ${a.error.message}`);
					return;
				}
				if (unknown) sim.fail("unknown-folder", `${a.target} was answered with ${JSON.stringify(a.value)}`);
				const got = new Map(a.value.map(x => [Uri.parse(x.uri).path, x.uri]));
				if (got.size !== a.value.length) sim.fail("listed-twice", JSON.stringify(a.value));
				for (const [p, u] of got) if (u !== Uri.file(p).toString()) sim.fail("not-an-identifier", u);
				for (const p of new Set([...history.keys(), ...got.keys()])) {
					const inside = below(a.target, p) && matches(a.pattern, p.slice(a.target.length + 1));
					const vs = versions(p, a.from);
					if (got.has(p) && !(inside && vs.some(v => v !== null))) sim.fail("listed-wrongly", `${p} was listed for ${a.pattern} in ${a.target}`);
					if (!got.has(p) && inside && vs.every(v => v !== null)) sim.fail("not-listed", `${p} was not listed for ${a.pattern} in ${a.target}`);
				}
				sim.probe("listed");
			} else {
				const vs = versions(a.target, a.from);
				if (a.error) {
					if (!vs.includes(null) && !failed.has(a.target)) sim.fail("file-refused", `${a.target}: ${a.error.message}`);
					return;
				}
				if (typeof a.value !== "string" || !vs.includes(a.value)) sim.fail("wrong-contents", `${a.target}: ${JSON.stringify(a.value)?.slice(0, 100)} instead of ${vs.map(v => JSON.stringify(v)?.slice(0, 60)).join(" or ")}`);
				sim.probe("read");
			}
		} catch (e) {
			// what sim.fail has thrown is kept by it
			if (!sim.failure) try { sim.fail("wrong-answer", `${a.target}: ${JSON.stringify(a.value)?.slice(0, 100)} (${e.message})`); } catch { /* kept */ }
		}
	};
	await pump();
	await settle();
	if (sim.failure) throw sim.failure;
	const left = answers.filter(a => !a.settled);
	if (left.length) sim.fail("never-answered", left.map(a => a.target).join(", "));
	let off = false;
	Promise.resolve(ext.deactivate()).then(() => { off = true; });
	await pump(() => off);
	if (!off || c.stopped !== 1 || !c.gone) sim.fail("not-stopped", `deactivated: ${off}, stopped ${c.stopped} times`);
	current = null;
	if (st.messages.length) sim.fail("spurious-message", st.messages[0]);
}

await harnessMain([{ id: "C21", main: c21 }], build);
