// C22: the executor that gives the packages their version (tools/src), over a simulated checkout, disk and git.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { isDeepStrictEqual } from "node:util";
import { fileURLToPath } from "node:url";
import { harnessMain, settle } from "./sim.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const out = path.join(here, ".build", "version.js");
const entry = "/repo/tools/src/version.ts";

async function build() {
	const require = createRequire("/opt/veriftools/node/node_modules/");
	const esbuild = require("esbuild");
	const sim = { "@nrwl/devkit": "devkit", "@iarna/toml": "toml", child_process: "child", fs: "fs", "fs/promises": "disk" };
	await esbuild.build({
		entryPoints: [entry], bundle: true, format: "cjs", platform: "node", target: "node20", outfile: out, logLevel: "error", tsconfigRaw: "{}",
		plugins: [{
			name: "checkout",
			setup(b) {
				b.onResolve({ filter: /^(@nrwl\/devkit|@iarna\/toml|(node:)?(child_process|fs|fs\/promises))$/ }, a => ({ path: sim[a.path.replace(/^node:/, "")], namespace: "sim" }));
				b.onLoad({ filter: /.*/, namespace: "sim" }, a => ({ contents: `module.exports = __sim[${JSON.stringify(a.path)}];`, loader: "js" }));
			},
		}],
	});
}

let code = null;
function load(sim) {
	code ??= fs.readFileSync(out, "utf8");
	const module = { exports: {} };
	const quiet = { log() {}, error() {}, warn() {}, info() {} };
	new Function("module", "exports", "require", "__sim", "process", "console", code)(module, module.exports, createRequire(import.meta.url), sim, { env: {}, platform: "linux", cwd: () => "/w" }, quiet);
	return module.exports;
}

const SEMVER = /^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-(0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(\.(0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*)?(\+[0-9a-zA-Z-]+(\.[0-9a-zA-Z-]+)*)?$/;
const TAGS = ["1.0.0", "0.4.12", "2.0.0-rc.1", "1.2.3+build.7", "10.20.30-alpha", "v1.2.3", "nightly", "1.2", "01.2.3", "release-1"];
const VERSIONS = ["1.0.0-preview", "0.1.0-alpha.1", "12.4.9-rc", "1.0.0-x-y", "1.0", "", "latest", "v1.0.0-beta"];
const BRANCHES = ["main", "main", "release/1.0", "release/x", "feature/a", "fix-main", "HEAD", "dev", "releases"];
const STEMS = ["a", "b c", "é", "pkg"];

let current = null;
process.on("uncaughtException", e => current?.crashed(e));
process.on("unhandledRejection", e => current?.crashed(e));

async function c22(sim) {
	const st = { crash: null, ended: null };
	const run = { crashed: e => { if (current === run) { st.crash ??= String(e?.stack ?? e).split("\n").slice(0, 3).join(" / "); sim.log("crash"); } } };
	current = run;
	const error = (c, p) => Object.assign(new Error(`${c}: ${p}`), { code: c });

	// the checkout
	const root = sim.one(["/w", "/w", "/home/u/with space"]);
	const git = {
		head: sim.one(["3f2a91c", "0000000", "abcdef0"]),
		tag: sim.chance(1, 3) ? sim.one(TAGS) : null,
		branch: sim.one(BRANCHES),
		tracked: !sim.chance(1, 12),
		base: sim.one(["1111111", "deadbee"]),
		height: sim.one([0, 1, 2, 17, 1042]),
	};
	if (git.height === 0) git.base = git.head;
	const versionJson = { version: sim.chance(1, 4) ? sim.one(VERSIONS) : sim.one(VERSIONS.slice(0, 4)), releaseBranches: sim.one([["main", "release/"], ["main", "release/"], ["release/"], []]) };
	const versionFile = `${root}/version.json`;

	// the disk: texts; a manifest in TOML is kept as JSON after a mark, which is all that the stand-in for the parser reads
	const disk = new Map([[versionFile, JSON.stringify(versionJson)]]);
	if (sim.chance(1, 30)) disk.delete(versionFile);
	const project = sim.one(["crates/core", "packages/x", "."]);
	const manifest = toml => toml
		? { package: { name: sim.one(STEMS), version: sim.one(["0.0.0", "0.1.0", "9.9.9-old"]), edition: "2021", ...(sim.chance(1, 3) ? { authors: ["José Ω 😀"] } : {}) }, dependencies: { serde: { version: "1.0.0" }, version: "2" } }
		: { name: sim.one(STEMS), ...(sim.chance(1, 4) ? {} : { version: sim.one(["0.0.0", "1.0.0"]) }), scripts: { version: "x" }, ...(sim.chance(1, 3) ? { author: "José Ω 😀" } : {}), dependencies: { a: "^1.0.0" } };
	const targets = [], before = new Map();
	let bad = 0, odd = 0;
	for (let i = sim.range(0, 5); i > 0; i--) {
		const toml = sim.chance(1, 2);
		const dir = sim.one(["", "sub/", "../", "./", "é/", "package.json/"]);
		const kind = sim.draw(12);
		const name = kind === 11 ? sim.one(["README.md", "package.json.bak", "Cargo.lock", "xpackage.json", "cargo.toml"]) : toml ? "Cargo.toml" : "package.json";
		const t = `${dir}${name}`, full = path.posix.resolve(root, project, t);
		targets.push({ t, full, kind: kind === 11 ? "odd" : toml ? "toml" : "json" });
		if (kind === 11) odd++;
		if (disk.has(full)) continue;
		if (kind === 10) { if (sim.chance(1, 2)) disk.set(full, toml ? "toml:{oops" : "{oops"); continue; }
		disk.set(full, (toml && kind !== 11 ? "toml:" : "") + JSON.stringify(manifest(toml), null, 2));
	}
	disk.set(path.posix.resolve(root, project, "other/package.json"), "{}");
	for (const [k, v] of disk) before.set(k, v);

	// faults
	const failing = sim.fault("failing git", 1, 5), shaky = sim.fault("failing disk", 1, 5);
	const faults = [];
	const hurt = (kind, what) => { const r = sim.fault(kind, 1, 4); if (r) { faults.push(what); sim.log(`${kind}: ${what}`); } return r; };

	const said = (o, text) => {
		const s = o?.stdio;
		const piped = s === undefined || s === "pipe" || (Array.isArray(s) && (s[1] === undefined || s[1] === null || s[1] === "pipe"));
		if (!piped) return null;
		return o?.encoding && o.encoding !== "buffer" ? text : Buffer.from(text);
	};
	const unquote = s => s.replace(/^(['"])(.*)\1$/, "$2");
	const command = (c, o) => {
		sim.steps++;
		sim.op();
		c = c.trim().replace(/\s+/g, " ");
		sim.log(`$ ${c}`);
		const fails = what => { throw Object.assign(new Error(`Command failed: ${c}\n${what}`), { status: 128, stdout: Buffer.from(""), stderr: Buffer.from(what) }); };
		const piped = / ?\| ?wc -l$/.test(c);
		const words = (c.replace(/ ?\| ?wc -l$/, "").match(/"[^"]*"|'[^']*'|\S+/g) ?? []).map(unquote);
		const verb = words[1], args = words.slice(2);
		const show = text => said(o, piped ? `${text.split("\n").length - 1}\n` : text);
		if (words[0] === "git" && verb === "describe") {
			if (!git.tag) fails("fatal: no tag exactly matches");
			if (failing && hurt("git fails", "describe")) fails("fatal");
			return show(`${git.tag}\n`);
		}
		const range = args.map(w => /^(\S+?)\.\.(?:HEAD)?$/.exec(w)).find(m => m);
		if (words[0] === "git" && (verb === "log" || verb === "rev-list") && range) {
			if (failing && hurt("git fails", verb)) {
				// the shell reports what the last command of a pipeline does
				if (piped) return said(o, "0\n");
				fails("fatal: git failed");
			}
			const n = range[1] === git.base ? git.height : 0;
			if (args.includes("--count")) return show(`${n}\n`);
			return show("1234567\n".repeat(n));
		}
		if (failing && hurt("git fails", verb === "symbolic-ref" ? "branch" : verb)) fails("fatal: git failed");
		const dashes = args.indexOf("--");
		const named = dashes < 0 ? [] : args.slice(dashes + 1);
		if (words[0] === "git" && verb === "log" && args.some(w => /^(-1|-n1|--max-count=1|1)$/.test(w)) && args.some(w => /=(format:)?%h$/.test(w))) {
			if (dashes < 0) return show(`${git.head}\n`);
			// an unquoted path with a space is two paths
			return show(git.tracked && named.length === 1 && path.posix.resolve(root, named[0]) === versionFile ? `${git.base}\n` : "");
		}
		const call = [verb, ...args].join(" ");
		if (words[0] === "git" && call === "rev-parse --short HEAD") return show(`${git.head}\n`);
		if (words[0] === "git" && /^(rev-parse --abbrev-ref HEAD|branch --show-current|symbolic-ref --short (-q )?HEAD)$/.test(call)) return show(`${git.branch}\n`);
		throw new Error(`a command that the simulated git does not know: ${c}`);
	};
	const child = {
		execSync: command,
		execFileSync: (f, a = [], o) => command([f, ...a].map(x => / /.test(x) ? `"${x}"` : x).join(" "), o),
		spawnSync: (f, a = [], o) => {
			const enc = v => o?.encoding && o.encoding !== "buffer" ? String(v ?? "") : v;
			try { return { status: 0, signal: null, stdout: child.execFileSync(f, a, o), stderr: enc(Buffer.from("")) }; } catch (e) { return { status: e.status ?? 1, signal: null, stdout: enc(e.stdout), stderr: enc(e.stderr) }; }
		},
	};
	child.default = child;

	const writing = [];
	const read = p => {
		sim.op();
		if (shaky && hurt("read error", p)) throw error("EIO", p);
		if (!disk.has(p)) throw error("ENOENT", p);
		return disk.get(p);
	};
	const write = (p, text, done) => {
		sim.op();
		if (shaky && hurt("write error", p)) {
			const n = sim.faultPick(3);
			if (n) disk.set(p, n === 1 ? "" : String(text).slice(0, String(text).length >> 1));
			writing.push(p);
			return done(error("ENOSPC", p));
		}
		disk.set(p, String(text));
		done(null);
	};
	const later = (what, f) => sim.at_(sim.draw(20), null, what, f);
	const rd = (p, o, f) => {
		f ??= o;
		const e = typeof o === "string" ? o : o?.encoding;
		later(`read ${p}`, () => {
			let t;
			try { t = read(p); } catch (x) { return f(x); }
			const b = Buffer.from(t);
			f(null, e && e !== "buffer" ? b.toString(e) : b);
		});
	};
	const wr = (p, text, o, f) => {
		f ??= o;
		const e = typeof o === "string" ? o : o?.encoding;
		const bytes = typeof text === "string" ? Buffer.from(text, e ?? "utf8") : Buffer.from(text);
		// the file is emptied when it is opened
		later(`open ${p}`, () => { if (disk.has(p)) disk.set(p, ""); later(`write ${p}`, () => write(p, bytes.toString(), f)); });
	};
	const promised = f => (...a) => new Promise((ok, no) => f(...a, (e, v) => e ? no(e) : ok(v)));
	const promises = { readFile: promised((p, ...r) => rd(p, r.length > 1 ? r[0] : undefined, r.at(-1))), writeFile: promised((p, t, ...r) => wr(p, t, r.length > 1 ? r[0] : undefined, r.at(-1))) };
	const fsx = {
		readFile: rd, writeFile: wr, promises,
		readFileSync: (p, o) => { const b = Buffer.from(read(p)), e = typeof o === "string" ? o : o?.encoding; return e && e !== "buffer" ? b.toString(e) : b; },
		writeFileSync: (p, t, o) => write(p, typeof t === "string" ? Buffer.from(t, (typeof o === "string" ? o : o?.encoding) ?? "utf8").toString() : t, e => { if (e) throw e; }),
	};
	fsx.default = fsx;
	const logger = Object.fromEntries(["info", "warn", "error", "fatal", "debug", "log"].map(k => [k, m => sim.log(`${k}: ${m}`)]));
	const devkit = {
		logger,
		readJsonFile: p => JSON.parse(read(p)),
		writeJsonFile: (p, v) => write(p, JSON.stringify(v, null, 2) + "\n", e => { if (e) throw e; }),
	};
	const toml = {
		parse: t => {
			if (!t.startsWith("toml:")) throw new Error("Unexpected character");
			return JSON.parse(t.slice(5));
		},
		stringify: v => "toml:" + JSON.stringify(v),
	};
	const local = sim.chance(1, 4) ? true : sim.chance(1, 2) ? false : undefined;
	sim.note(`${targets.length} targets, tag ${git.tag}, branch ${git.branch}, ${versionJson.version}${local ? ", local" : ""}${failing || shaky ? ", faults" : ""}`);

	const tools = load({ devkit, toml, child, fs: fsx, disk: promises });
	const context = { root, projectName: "p", workspace: { projects: { p: { root: project }, q: { root: "elsewhere" } } }, cwd: root };
	const options = { packages: targets.map(x => x.t), ...(local === undefined ? {} : { local }) };
	Promise.resolve().then(() => tools.default(options, context)).then(v => { st.ended = { v }; }, e => { st.ended = { e }; sim.log(`failed: ${e.message}`); });
	for (let i = 0; i < 2000 && !st.ended; i++) {
		await settle();
		if (sim.failure) throw sim.failure;
		if (st.crash) sim.fail("crash", st.crash);
		try {
			if (!st.ended && !sim.step()) break;
		} catch (e) {
			if (sim.failure) throw sim.failure;
			// what a callback throws ends the process
			sim.fail("crash", String(e?.stack ?? e).split("\n").slice(0, 3).join(" / "));
		}
	}
	await settle();
	if (st.crash) sim.fail("crash", st.crash);
	if (!st.ended) sim.fail("never-ended", "the executor neither succeeded nor failed");
	// what was started and not waited for
	let late = 0;
	while (sim.step()) { late++; await settle(); }
	current = null;
	if (late && !st.ended.e) sim.fail("not-awaited", "the executor reported before everything was written");
	if (st.ended.e && /simulated git does not know/.test(st.ended.e.message)) throw st.ended.e;

	// which version this checkout has
	const versions = new Set();
	let impossible = false;
	const gitFault = faults.some(f => f === "log" || f === "rev-parse" || f === "branch");
	const untagged = () => {
		if (gitFault) impossible = true;
		if (!git.tracked) return versions.add("0.0.0");
		if (!before.has(versionFile) || faults.includes(versionFile)) { impossible = true; return; }
		if (!SEMVER.test(versionJson.version)) return versions.add("0.0.0");
		const release = versionJson.releaseBranches.some(b => b.endsWith("/") ? git.branch.startsWith(b) : git.branch === b);
		versions.add(release && !local ? `${versionJson.version}.${git.height + 1}` : `${versionJson.version}-g${git.head}`);
	};
	const tagged = git.tag && SEMVER.test(git.tag);
	if (tagged) versions.add(git.tag);
	// git that fails to name a tag has no tag
	if (!tagged || faults.includes("describe")) { versions.delete(git.tag); untagged(); }
	sim.probe(tagged ? "tagged" : versions.has("0.0.0") ? "no version" : local ? "local version" : "counted or named by commit");

	const was = t => t.kind === "odd" ? null : (() => { try { const b = before.get(t.full); return b === undefined ? null : t.kind === "toml" ? toml.parse(b) : JSON.parse(b); } catch { return null; } })();
	const now = (p, kind) => { try { const b = disk.get(p); return kind === "toml" ? toml.parse(b) : JSON.parse(b); } catch { return undefined; } };
	const updated = t => {
		const w = was(t), n = now(t.full, t.kind);
		if (!w || n === undefined) return null;
		for (const v of versions) {
			const e = structuredClone(w);
			if (t.kind === "toml") e.package.version = v; else e.version = v;
			if (isDeepStrictEqual(e, n)) return v;
		}
		return null;
	};
	const real = targets.filter(t => t.kind !== "odd");
	const broken = real.filter(t => !was(t));
	const doomed = impossible || broken.length > 0 || faults.some(f => f !== "describe");
	if (st.ended.e) {
		if (!doomed) sim.fail("failed-without-cause", String(st.ended.e.stack).split("\n").slice(0, 2).join(" / "));
		sim.probe("failed with cause");
	} else {
		if (impossible) sim.fail("success-hides-failure", `${faults.join(", ")} and still ${JSON.stringify(st.ended.v)}`);
		if (st.ended.v?.success !== (odd === 0)) sim.fail("wrong-outcome", `${JSON.stringify(st.ended.v)} with ${odd} targets that are no manifests`);
		const seen = new Set();
		for (const t of real) {
			const v = updated(t);
			if (v === null) sim.fail("wrong-version", `${t.full} is ${disk.get(t.full)?.slice(0, 300)}, with ${[...versions].join(" or ")} expected`);
			seen.add(v);
		}
		if (seen.size > 1) sim.fail("wrong-version", `several versions: ${[...seen].join(", ")}`);
		if (real.length) sim.probe("updated");
	}
	// whatever happened, nothing else was touched, and what was touched is either as it was or as it should be, but for a write that failed
	for (const p of new Set([...disk.keys(), ...before.keys()])) {
		if (disk.get(p) === before.get(p)) continue;
		const t = real.find(t => t.full === p);
		if (!t) sim.fail("touched", `${p} was changed`);
		if (updated(t) === null && !writing.includes(p)) sim.fail("damaged", `${p} is ${disk.get(p)?.slice(0, 300)}`);
	}
}

await harnessMain([{ id: "C22", main: c22 }], build);
