//! C18: the native file system over a disk with odd names, odd contents and errors.
use analyzer_abstractions::lsp_types::Url;
use p4_analyzer::native_fs::native_fs::NativeFs;
use simrt::{chance, draw, draw_range, fail, note, probe};
use simstd::io::SimStdio;
use simstd::simdisk::{disk, DiskFaults};
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;

fn name() -> String {
	let parts = ["a", "b", "sub", "x y", "[q]", "é", "😀", "%41", "*", "?", "{a,b}", ".hid", "#1", "a;b", "~", "[!x]", "**", "c++", "back\\slash", "p4", "d.p4"];
	parts[draw(parts.len())].to_string()
}

fn contents() -> Vec<u8> {
	match draw(6) {
		0 => vec![],
		1 => vec![0xff, 0xfe, b'a', 0xc3],
		2 => "é😀\r\nq".as_bytes().to_vec(),
		3 => b"\xef\xbb\xbfx".to_vec(),
		4 => vec![b'z'; draw(20000)],
		_ => b"header h { }\n".to_vec(),
	}
}

pub fn c18() {
	let d = disk();
	let mut dirs: Vec<String> = vec!["/w".into()];
	d.put_dir("/w");
	// now and then, a large tree
	let big = chance(1, 120);
	if big {
		probe("large tree");
		simrt::more_steps(1_000_000);
	}
	for _ in 0..if big { draw_range(10, 60) } else { draw(6) } {
		let parent = if big && chance(3, 4) { dirs.len() - 1 } else { draw(dirs.len()) };
		let p = format!("{}/{}", dirs[parent], name());
		if !dirs.contains(&p) {
			d.put_dir(&p);
			dirs.push(p);
		}
	}
	let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
	for k in 0..if big { draw_range(60, 500) } else { draw_range(0, 8) } {
		let ext = [".p4", ".p4", ".p4", ".P4", ".p4x", "", ".txt", ".p4.bak"][draw(8)];
		let p = format!("{}/{}{}{}", dirs[draw(dirs.len())], name(), if big { k.to_string() } else { String::new() }, ext);
		if !dirs.contains(&p) {
			let c = if big && chance(1, 60) {
				probe("large file");
				format!("{}{}", "z".repeat(draw(4)), ["é😀\r\n", "漢字"][draw(2)].repeat(draw_range(1000, [60_000, 400_000][draw(2)]))).into_bytes()
			} else {
				contents()
			};
			d.put(&p, &c);
			files.insert(p, c);
		}
	}
	// what asks the system rather than std::fs sees this disk, too
	assert!(files.keys().all(|f| std::path::Path::new(f).is_file()) && dirs.iter().all(|f| std::path::Path::new(f).is_dir()));
	// links: to files of this tree or another, to folders, to nothing, and to themselves
	let mut below_link: Vec<String> = vec![];
	let mut dangling: Vec<String> = vec![];
	let mut through: BTreeMap<String, String> = BTreeMap::new();
	if chance(1, 3) {
		d.put("/elsewhere/real.p4", b"header e { }\n");
		d.put("/elsewhere/sub/real.txt", b"t");
		let targets: Vec<String> = files.keys().cloned().collect();
		for k in 0..draw_range(1, 3) {
			let p = format!("{}/ln{k}{}", dirs[draw(dirs.len())], [".p4", ".p4", ".p4", ".txt", ""][draw(5)]);
			match draw(6) {
				0 if !targets.is_empty() => {
					let t = &targets[draw(targets.len())];
					d.put_link(&p, t);
					files.insert(p.clone(), files[t].clone());
					through.insert(p, t.clone());
					probe("link to a file");
				}
				1 => {
					d.put_link(&p, "/elsewhere/real.p4");
					files.insert(p.clone(), b"header e { }\n".to_vec());
					through.insert(p, "/elsewhere/real.p4".into());
					probe("link to a file");
				}
				2 => {
					d.put_link(&p, "none.p4");
					dangling.push(p);
				}
				3 => {
					let own = p.rsplit('/').next().unwrap().to_string();
					d.put_link(&p, &own);
					dangling.push(p);
				}
				4 => {
					// whether links to folders are followed is not said
					d.put_link(&p, "/elsewhere");
					below_link.push(p);
					probe("link to a folder");
				}
				_ => {}
			}
		}
	}
	// another tree that must not show up
	if chance(1, 2) {
		d.put("/wx/other.p4", b"");
		d.put("/other.p4", b"");
	}
	let root = dirs[draw(dirs.len())].clone();
	let mut hidden: Vec<String> = vec![];
	if chance(1, 3) {
		let h = dirs[draw(dirs.len())].clone();
		d.set_unreadable(&h, Some([ErrorKind::PermissionDenied, ErrorKind::Other][draw(2)]));
		simrt::count_fault("unreadable folder");
		hidden.push(h);
	}
	let mut locked: BTreeSet<String> = BTreeSet::new();
	for f in files.keys() {
		if !through.contains_key(f) && simrt::fault("unreadable file", 1, if big { 60 } else { 6 }) {
			d.set_unreadable(f, Some(ErrorKind::PermissionDenied));
			locked.insert(f.clone());
		}
	}
	for (l, t) in &through {
		if locked.contains(t) {
			locked.insert(l.clone());
		}
	}
	let flaky = chance(1, 4);
	if flaky {
		d.set_faults(DiskFaults { read_error: 3, dir_error: 4, slow: 3, slow_ms: 10, short_read: 2, ..Default::default() });
	} else if chance(1, 3) {
		d.set_faults(DiskFaults { slow: 2, slow_ms: 200, short_read: 2, ..Default::default() });
	} else {
		d.set_faults(DiskFaults { short_read: 4, ..Default::default() });
	}
	let bare = chance(1, 3);
	note(format!("{} files in {} folders, root {root}, flaky {flaky}", files.len(), dirs.len()));
	let fs = NativeFs::new();
	let folder = if bare { Url::from_file_path(&root) } else { Url::from_directory_path(&root) }.unwrap();
	let odd = ["untitled:Untitled-1", "http://example.org/w/", "file://host/w/a.p4", "data:text/plain,x", "file:///w/%00.p4", "file:///w/none.p4", "file:///"];
	if chance(1, 4) {
		let u = odd[draw(odd.len() - 1)];
		probe("odd URI");
		let u = Url::parse(u).unwrap();
		if let Some(t) = simrt::block_on(fs.file_contents(u.clone())) {
			fail("ghost-file", format!("{u} has contents {t:?}"));
		}
		let l = simrt::block_on(fs.enumerate_folder(u.clone(), "**/*.p4".into()));
		if !l.is_empty() {
			fail("ghost-file", format!("{u} has files {l:?}"));
		}
	}
	let under = |f: &str, r: &str| f.starts_with(&format!("{}/", r.trim_end_matches('/')));
	for _ in 0..draw_range(1, 2) {
		let got: Vec<String> = simrt::block_on(fs.enumerate_folder(folder.clone(), "**/*.p4".into()))
			.into_iter()
			.map(|t| match t.uri.to_file_path() {
				Ok(p) => p.to_str().unwrap().to_string(),
				Err(_) => fail("ghost-file", format!("{} is not a file", t.uri)),
			})
			.collect();
		let set: BTreeSet<&String> = got.iter().collect();
		if set.len() != got.len() {
			fail("listed-twice", format!("{got:?}"));
		}
		let all: Vec<&String> = files.keys().filter(|f| f.ends_with(".p4") && under(f, &root)).collect();
		let want: BTreeSet<&String> =
			all.iter().filter(|f| !hidden.iter().any(|h| under(f, h))).copied().collect();
		for f in &got {
			let followed = below_link.iter().any(|l| *f == format!("{l}/real.p4") && under(l, &root));
			if !all.contains(&f) && !followed {
				fail("ghost-file", format!("{f} listed for {folder}"));
			}
		}
		if !flaky {
			if let Some(f) = want.iter().find(|f| !set.contains(*f)) {
				fail("file-not-listed", format!("{f} is not listed for {folder}: {got:?}"));
			}
		}
		if want.len() > 1 {
			probe("several files");
		}
	}
	for f in &dangling {
		if let Some(t) = simrt::block_on(fs.file_contents(Url::from_file_path(f).unwrap())) {
			fail("ghost-file", format!("{f} leads nowhere and has contents {t:?}"));
		}
	}
	for (f, c) in &files {
		let u = Url::from_file_path(f).unwrap();
		let t = simrt::block_on(fs.file_contents(u));
		let want = String::from_utf8_lossy(c).into_owned();
		match t {
			Some(t) if t != want || locked.contains(f) => fail("wrong-contents", format!("{f}: {:?} instead of {:?}", t.chars().take(40).collect::<String>(), want.chars().take(40).collect::<String>())),
			None if !flaky && !locked.contains(f) => fail("file-not-read", f.clone()),
			_ => {}
		}
		// changes are seen at once
		if chance(1, 4) && !locked.contains(f) && !through.contains_key(f) && !through.values().any(|t| t == f) {
			d.put(f, b"changed");
			match simrt::block_on(fs.file_contents(Url::from_file_path(f).unwrap())) {
				Some(t) if t == "changed" => {}
				None if flaky => {}
				x => fail("wrong-contents", format!("{f}: {x:?} after a change")),
			}
		}
	}
	let out = simrt::ext::<SimStdio>().stdout_bytes();
	if !out.is_empty() {
		fail("not-the-protocol", format!("written to stdout: {:?}", String::from_utf8_lossy(&out)));
	}
}
