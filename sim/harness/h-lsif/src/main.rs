//! C16: the LSIF generator as a whole process.
use serde_json::Value;
use simharness::{harness_main, Prop};
use simrt::{chance, draw, draw_range, fail, fault, note, probe};
use simstd::env::SimArgs;
use simstd::process::ExitHook;
use simstd::simdisk::{self, DiskFaults};
use simstd::thread;
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;

const MS: u64 = 1_000_000;
const PATIENCE: u64 = 600_000 * MS;

fn main() {
	harness_main(&[Prop { id: "C16", main: c16, max_steps: 400_000 }]);
}

fn name() -> String {
	let parts = ["a", "b", "sub", "x y", "[q]", "é", "😀", "%41", ".hid", "#1", "c++", "core", "v1model", "d.p4"];
	parts[draw(parts.len())].to_string()
}

fn c16() {
	let d = simdisk::disk();
	d.set_cwd("/w");
	d.put_dir("/w");
	d.put_dir("/out");
	d.put_dir("/usr/p4");
	let mut dirs: Vec<String> = vec!["/w".into(), "/usr/p4".into()];
	// now and then, a large workspace
	let big = chance(1, 120);
	if big {
		probe("large workspace");
		simrt::more_steps(4_000_000);
	}
	for _ in 0..if big { draw_range(5, 40) } else { draw(5) } {
		let parent = if big && chance(1, 2) { dirs.len() - 1 } else { draw(dirs.len()) };
		let p = format!("{}/{}", dirs[parent], name());
		if !dirs.contains(&p) {
			d.put_dir(&p);
			dirs.push(p);
		}
	}
	let mut files: BTreeSet<String> = BTreeSet::new();
	for k in 0..if big { draw_range(40, 300) } else { draw(9) } {
		let ext = [".p4", ".p4", ".p4", ".P4", ".txt", ".p4.bak"][draw(6)];
		let p = format!("{}/{}{}{}", dirs[draw(dirs.len())], name(), if big { k.to_string() } else { String::new() }, ext);
		if !dirs.contains(&p) {
			let text = ["", "header h { bit<8> x; }\n", "#include \"a.p4\"\n#include <core.p4>\n", "#if 1/0\n#endif\n\"é😀", "\u{feff}x \\\n#define A A\nA"][draw(5)];
			if big && chance(1, 30) {
				d.put(&p, format!("{}{}", "z".repeat(draw(4)), ["é😀\r\n", "漢字 "][draw(2)].repeat(draw_range(1000, 20_000))).as_bytes());
			} else if chance(1, 8) {
				d.put(&p, &[0xff, 0xc3, b'x']);
			} else {
				d.put(&p, text.as_bytes());
			}
			files.insert(p);
		}
	}
	d.put("/elsewhere.p4", b"");
	let inside = |dir: &str| dirs.iter().filter(|x| x.starts_with(dir)).cloned().collect::<Vec<_>>();
	let ws = inside("/w");
	let ws = ws[draw(ws.len())].clone();
	let hs = if chance(1, 4) { inside("/w") } else { inside("/usr/p4") };
	let hs = hs[draw(hs.len())].clone();
	let rel = |p: &str| if chance(1, 3) && p.starts_with("/w/") { p["/w/".len()..].to_string() } else if chance(1, 5) { format!("{p}/") } else { p.to_string() };
	let mut args = vec!["lsif-p4".to_string(), (["-h", "--header-files"][draw(2)]).into(), rel(&hs)];
	let ws = if ws == "/w" && chance(1, 2) {
		ws
	} else {
		args.push("-w".into());
		args.push(rel(&ws));
		ws
	};
	let mut file = "P4Analysis".to_string();
	if chance(1, 3) {
		file = ["dump", "a.b", "é"][draw(3)].into();
		args.push("-f".into());
		args.push(file.clone());
	}
	let mut out = "/w".to_string();
	if chance(1, 3) {
		out = ["/out", "/usr", "/w"][draw(3)].into();
		args.push("-o".into());
		args.push(out.clone());
	}
	let target = format!("{out}/{file}.lsif");
	if chance(1, 3) {
		d.put(&target, &vec![b'x'; draw(5000)]);
	}
	let mut hidden: Vec<String> = vec![];
	if fault("unreadable folder", 1, 8) {
		let h = dirs[draw(dirs.len())].clone();
		d.set_unreadable(&h, Some(ErrorKind::PermissionDenied));
		hidden.push(h);
	}
	let mut locked: BTreeSet<String> = BTreeSet::new();
	for f in &files {
		if fault("unreadable file", 1, if big { 100 } else { 10 }) {
			d.set_unreadable(f, Some(ErrorKind::PermissionDenied));
			locked.insert(f.clone());
		}
	}
	let mut df = DiskFaults::default();
	if chance(1, 2) {
		df.slow = 1 + draw(3);
		df.slow_ms = [2, 30, 400][draw(3)];
	}
	df.short_read = 3;
	df.short_write = [0, 0, 3][draw(3)];
	let broken = chance(1, 6);
	if broken {
		df.write_error = [0, 2][draw(2)];
		if chance(1, 2) {
			d.set_capacity(Some(draw(4000)));
		}
	}
	if chance(1, 15) {
		return no_dump(args);
	}
	d.set_faults(df);
	note(format!("{args:?}, {} files in {} folders", files.len(), dirs.len()));
	*simrt::ext::<SimArgs>().0.lock().unwrap() = args.iter().map(|s| s.into()).collect();

	let want = Want { files, ws, hs, hidden, locked, target, args, broken };
	let what = format!("{:?}", want.args);
	simrt::ext::<ExitHook>().set(Box::new(move |code| want.check(code)));
	if broken {
		simrt::set_panic_policy(simrt::PanicPolicy::Record);
	}
	let p = thread::Builder::new()
		.name("process".into())
		.spawn(|| {
			let r = std::panic::catch_unwind(lsif_main::main);
			if r.is_err() && simrt::aborting() {
				std::panic::resume_unwind(r.unwrap_err());
			}
			// as the runtime does
			simstd::process::exit(if r.is_err() { 101 } else { 0 })
		})
		.unwrap();
	simrt::sleep_ns(PATIENCE);
	drop(p);
	fail("did-not-stop", format!("the generator is still running: {what}"));
}

/// There is nothing that it could dump, or nothing that was asked of it.
fn no_dump(mut args: Vec<String>) {
	let d = simdisk::disk();
	let how = draw(4);
	match how {
		0 => args.insert(1, ["-v", "--version"][draw(2)].into()),
		1 => args.extend([["--nonsense"], ["dump"], ["-x"]][draw(3)].iter().map(|s| s.to_string())),
		2 => {
			args.drain(1..3); // the header files
			args.retain(|a| a != "-h");
		}
		_ => {
			args[2] = "/not/there".into();
		}
	}
	let how_text = ["asked for the version", "unknown arguments", "no header folder", "a folder that is not there"][how];
	probe(how_text);
	note(format!("{args:?}"));
	*simrt::ext::<SimArgs>().0.lock().unwrap() = args.iter().map(|s| s.into()).collect();
	let before = d.files();
	simrt::ext::<ExitHook>().set(Box::new(move |code| {
		if simdisk::disk().files() != before {
			fail("wrong-dump", format!("files changed on disk: {args:?}"));
		}
		let io = simrt::ext::<simstd::io::SimStdio>();
		let out = String::from_utf8_lossy(&io.stdout_bytes()).into_owned();
		let err = String::from_utf8_lossy(&io.stderr_bytes()).into_owned();
		match how {
			0 if code != 0 || !out.trim().starts_with(|c: char| c.is_ascii_digit()) || out.trim().lines().count() != 1 => {
				fail("wrong-output", format!("asked for its version it says {out:?} and ends with {code}"))
			}
			3 if code == 0 => fail("wrong-exit", format!("success without the folder: {args:?}")),
			1 | 2 if (out.clone() + &err).trim().is_empty() => fail("wrong-output", format!("it says nothing about {args:?}")),
			_ => {}
		}
	}));
	simrt::set_panic_policy(simrt::PanicPolicy::Record);
	let p = thread::Builder::new()
		.name("process".into())
		.spawn(|| {
			let r = std::panic::catch_unwind(lsif_main::main);
			if r.is_err() && simrt::aborting() {
				std::panic::resume_unwind(r.unwrap_err());
			}
			simstd::process::exit(if r.is_err() { 101 } else { 0 })
		})
		.unwrap();
	simrt::sleep_ns(PATIENCE);
	drop(p);
	fail("did-not-stop", format!("the generator is still running: {how_text}"));
}

struct Want {
	files: BTreeSet<String>,
	ws: String,
	hs: String,
	hidden: Vec<String>,
	locked: BTreeSet<String>,
	target: String,
	args: Vec<String>,
	broken: bool,
}

impl Want {
	/// The process ends.
	fn check(&self, code: i32) {
		let Want { files, ws, hs, hidden, locked, target, args, broken } = self;
		let d = simdisk::disk();
		if code != 0 {
			if !broken {
				fail("wrong-exit", format!("exit({code}) for {args:?}"));
			}
			probe("output failed");
			return;
		}
		probe("dumped");
		let Some(dump) = d.get(target) else { fail("no-dump", format!("{target} is not there")) };
		let Ok(dump) = String::from_utf8(dump) else { fail("wrong-dump", "not UTF-8".into()) };
		let mut ids: BTreeSet<String> = BTreeSet::new();
		let mut docs: BTreeMap<String, usize> = BTreeMap::new();
		if !dump.is_empty() && !dump.ends_with('\n') {
			fail("wrong-dump", "the last line is not complete".into());
		}
		for l in dump.lines() {
			let v: Value = match serde_json::from_str(l) {
				Ok(v) => v,
				Err(e) => fail("wrong-dump", format!("{l:?}: {e}")),
			};
			if !ids.insert(v["id"].to_string()) || !(v["id"].is_number() || v["id"].is_string()) {
				fail("wrong-dump", format!("the id of {l} is not unique"));
			}
			match (v["type"].as_str(), v["label"].as_str()) {
				(Some("vertex"), Some("document")) => {
					let Some(u) = v["uri"].as_str().and_then(|u| url::Url::parse(u).ok()).and_then(|u| u.to_file_path().ok()) else {
						fail("wrong-dump", format!("{l} is not a file"))
					};
					if !v["languageId"].as_str().map_or(false, |s| s.eq_ignore_ascii_case("p4")) {
						fail("wrong-dump", format!("{l} is not a P4 file"));
					}
					*docs.entry(u.to_str().unwrap().to_string()).or_default() += 1;
				}
				(Some("vertex"), Some(_)) => {}
				(Some("edge"), Some(_)) => {
					let ends: Vec<&Value> =
						["inV", "outV"].iter().map(|k| &v[*k]).chain(v["inVs"].as_array().into_iter().flatten()).filter(|x| !x.is_null()).collect();
					if ends.iter().any(|x| !ids.contains(&x.to_string())) {
						fail("wrong-dump", format!("{l} refers to what was not emitted"));
					}
				}
				_ => fail("wrong-dump", format!("neither vertex nor edge: {l}")),
			}
		}
		let under = |f: &str, r: &str| f.starts_with(&format!("{r}/"));
		let want: BTreeSet<&String> = files.iter().filter(|f| f.ends_with(".p4") && (under(f, ws) || under(f, hs))).collect();
		for (f, n) in &docs {
			// what is included is part of the workspace, too, if it is there
			if !files.contains(f) || !(under(f, ws) || under(f, hs)) {
				fail("ghost-document", format!("{f} is in the dump of {ws} and {hs}"));
			}
			if *n > 1 {
				fail("document-twice", format!("{f} is in the dump {n} times"));
			}
		}
		for f in want {
			if !docs.contains_key(f) && !locked.contains(f) && !hidden.iter().any(|h| under(f, h)) {
				fail("document-missing", format!("{f} is not in the dump of {ws} and {hs}, which has {docs:?}"));
			}
		}
		if docs.len() > 1 {
			probe("several documents");
		}
	}
}
