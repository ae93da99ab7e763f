//! C29: files round-trip through the core library.

use crate::{fail, Shard};
use smd_core::error::{Error, Result};
use smd_core::fs::{self, Deserialize, Serialize};

fn kept(path: PathBuf) -> Result<Kept> {
	fs::decode_from_file(path)
}
use std::path::PathBuf;

/// A value whose serialisation is set from outside.
struct Given(std::result::Result<String, u8>);

fn error(k: u8) -> Error {
	match k {
		0 => Error::SerializeError("told to".into()),
		1 => Error::DeserializeError("told to".into()),
		2 => Error::CustomError("told to".into()),
		3 => Error::ConfigValidatioinError("told to".into()),
		4 => Error::BrowserError("told to".into()),
		5 => Error::LoggerError("told to".into()),
		6 => Error::ConfigAlreadyExistsError("told to".into()),
		_ => Error::IoError(std::io::Error::other("told to")),
	}
}
fn same(a: &Error, b: &Error) -> bool {
	std::mem::discriminant(a) == std::mem::discriminant(b) && a.to_string() == b.to_string()
}

impl Serialize for Given {
	fn serialize(&self) -> Result<String> {
		match &self.0 {
			Ok(s) => Ok(s.clone()),
			Err(k) => Err(error(*k)),
		}
	}
}

/// Keeps what it was given, or fails as a file tells it to.
#[derive(Debug)]
struct Kept(String);
impl Deserialize for Kept {
	fn deserialize(input: &str) -> Result<Self> {
		if let Some(k) = input.strip_prefix("fail ") {
			if let Ok(k) = k.parse() {
				return Err(error(k));
			}
		}
		Ok(Kept(input.to_string()))
	}
}

thread_local! {
	/// What `Moody` does when called: the error of each call, in order; after them it succeeds.
	static MOOD: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
	static GIVEN: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}
fn next() -> Result<()> {
	MOOD.with_borrow_mut(|m| if m.is_empty() { Ok(()) } else { Err(error(m.remove(0))) })
}

/// Fails as often as it is told to, whatever it is given.
struct Moody(String);
impl Serialize for Moody {
	fn serialize(&self) -> Result<String> {
		next().map(|_| self.0.clone())
	}
}
impl Deserialize for Moody {
	fn deserialize(input: &str) -> Result<Self> {
		GIVEN.with_borrow_mut(|g| g.push(input.to_string()));
		next().map(|_| Moody(input.to_string()))
	}
}
fn moody(path: PathBuf) -> Result<Moody> {
	fs::decode_from_file(path)
}

fn all(alphabet: &[&str], depth: u32) -> Vec<String> {
	let mut r = vec![];
	for len in 0..=depth {
		for code in 0..alphabet.len().pow(len) {
			let mut x = code;
			let mut s = String::new();
			for _ in 0..len {
				s.push_str(alphabet[x % alphabet.len()]);
				x /= alphabet.len();
			}
			r.push(s);
		}
	}
	r
}

/// Contents that resemble these.
fn resembling(b: &[u8]) -> Vec<Option<Vec<u8>>> {
	let flip = |f: &dyn Fn(usize) -> bool| -> Vec<u8> { b.iter().enumerate().map(|(i, x)| if f(i) { x ^ 1 } else { *x }).collect() };
	let n = b.len();
	vec![
		Some(b.to_vec()),
		Some(flip(&|_| true)),
		Some(flip(&|i| i == 0)),
		Some(flip(&|i| i + 1 == n)),
		Some(flip(&|i| i == n / 2)),
		Some(b[..n.saturating_sub(1)].to_vec()),
		Some([b, b"\n"].concat()),
		Some(b.to_ascii_uppercase()),
	]
}

pub fn check(tier: &str, k: u64, shards: u64, dir: &str) -> i32 {
	let mut shard = Shard::new(k, shards);
	let thorough = tier == "thorough";
	let dir = PathBuf::from(dir);
	let path = dir.join("f");
	let mut n = 0u64;
	let raw = |p: &PathBuf| std::fs::read(p);
	let earlier: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"x".to_vec()), Some(vec![b'\n'; 70]), Some(vec![0xff; 300])];
	let reset = |e: &Option<Vec<u8>>| {
		let _ = std::fs::remove_file(&path);
		if let Some(e) = e {
			std::fs::write(&path, e).unwrap();
		}
	};
	// texts
	let mut texts = all(&["a", "\n", "\r", "é", "\0", "𐍈", "\u{feff}", " ", "\u{2028}", "\u{1a}"], if thorough { 5 } else { 3 });
	for c in (0..0x250).chain([0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
		if let Some(c) = char::from_u32(c) {
			texts.push(format!("{c}"));
			texts.push(format!("a{c}\n"));
			texts.push(format!("\r{c}{c}"));
		}
	}
	for k in 0..if thorough { 22 } else { 18 } {
		for d in [-1i64, 0, 1] {
			let len = ((1i64 << k) + d).max(0) as usize;
			texts.push("a".repeat(len));
			texts.push("a".repeat(len) + "é");
			texts.push("a\n".repeat(len / 2) + "\r\n");
		}
	}
	let (words, numbers) = crate::mentioned();
	for w in &words {
		texts.push(w.clone());
		texts.push(format!("a{w}\n"));
		texts.push(format!("{w}b"));
	}
	for n in &numbers {
		for len in n.saturating_sub(1)..=n + 1 {
			texts.push("a".repeat(len));
			texts.push("é".repeat(len / 2) + "\n");
			texts.push("a\n".repeat(len.min(100_000)));
		}
	}
	for t in &texts {
		if !shard.mine() {
			continue;
		}
		let some = if t.len() > 300 { &earlier[..4] } else { &earlier[..] };
		let mut over = some.to_vec();
		over.extend(resembling(t.as_bytes()));
		for e in &over {
			reset(e);
			if let Err(x) = fs::write_to_file(&path, t) {
				fail(format!("write_to_file fails: {x}: {:?} ({} bytes)", &t.chars().take(100).collect::<String>(), t.len()));
			}
			n += 1;
			let shown = || format!("text {:?} ({} bytes) over {:?}", t.chars().take(100).collect::<String>(), t.len(), e.as_ref().map(|e| e.len()));
			if raw(&path).ok().as_deref() != Some(t.as_bytes()) {
				fail(format!("{}: write_to_file wrote {:?}", shown(), raw(&path).map(|b| b.into_iter().take(100).collect::<Vec<_>>())));
			}
			match fs::read_to_string(&path) {
				Ok(got) if &got == t => {}
				other => fail(format!("{}: read_to_string gives {:?}", shown(), other.map(|s| s.chars().take(100).collect::<String>()))),
			}
			let marked = t.strip_prefix("fail ").is_some();
			match kept(path.clone()) {
				Ok(Kept(got)) if &got == t => {}
				_ if marked => {}
				other => fail(format!("{}: decode_from_file gives {:?}", shown(), other.map(|s| s.0.chars().take(100).collect::<String>()))),
			}
		}
		match fs::encode_to_string(&Given(Ok(t.clone()))) {
			Ok(got) if &got == t => {}
			other => fail(format!("encode_to_string of {:?} gives {:?}", t.chars().take(100).collect::<String>(), other.map(|s| s.chars().take(100).collect::<String>()))),
		}
		n += 1;
	}
	// a failure is a failure, whatever is in the file and whether or not a second call would succeed
	let mut failures = 0u64;
	for t in texts.iter().filter(|t| t.len() < 40) {
		if !shard.mine() {
			continue;
		}
		std::fs::write(&path, t).unwrap();
		for k in 0..8u8 {
			for more in 0..2 {
				let mood = || MOOD.set(vec![k; 1 + more]);
				mood();
				GIVEN.set(vec![]);
				match moody(path.clone()) {
					Err(e) if same(&e, &error(k)) => {}
					other => fail(format!("decode_from_file of {t:?}: the deserialiser fails with {:?}, returned is {:?}", error(k), other.map(|o| o.0))),
				}
				if GIVEN.with_borrow(|g| g.first() != Some(t)) {
					fail(format!("decode_from_file of {t:?}: the deserialiser is given {:?}", GIVEN.take()));
				}
				mood();
				match fs::encode_to_string(&Moody(t.clone())) {
					Err(e) if same(&e, &error(k)) => {}
					other => fail(format!("encode_to_string of {t:?}: the serialiser fails with {:?}, returned is {other:?}", error(k))),
				}
				failures += 2;
			}
		}
		MOOD.set(vec![]);
	}
	println!("N failures_of_the_serialiser {failures}");
	println!("N texts {}", if k == 0 { texts.len() } else { 0 });
	// bytes
	let mut blobs: Vec<Vec<u8>> = vec![vec![]];
	for a in 0..=255u8 {
		blobs.push(vec![a]);
		for b in 0..=255u8 {
			blobs.push(vec![a, b]);
		}
		blobs.push(vec![a; 300]);
		blobs.push([vec![b'%'; 70], vec![a], vec![b'\r'; 3]].concat());
	}
	for k in 0..if thorough { 24 } else { 18 } {
		for d in [-1i64, 0, 1] {
			let len = ((1i64 << k) + d).max(0) as usize;
			blobs.push((0..len).map(|i| (i * 7 + i / 256) as u8).collect());
		}
	}
	for w in &words {
		blobs.push([b"\xff", w.as_bytes()].concat());
		blobs.push([w.as_bytes(), b"\xff"].concat());
	}
	for n in &numbers {
		for len in n.saturating_sub(1)..=n + 1 {
			blobs.push((0..len).map(|i| (i * 7 + i / 256) as u8).collect());
		}
	}
	for b in &blobs {
		if !shard.mine() {
			continue;
		}
		let mut over = if b.len() == 2 && !thorough { earlier[2..4].to_vec() } else { earlier.clone() };
		if b.len() != 2 || b[0] < 3 {
			over.extend(resembling(b));
		}
		for e in &over {
			reset(e);
			if let Err(x) = fs::write_bytes(&path, b) {
				fail(format!("write_bytes fails on {} bytes: {x}", b.len()));
			}
			n += 1;
			if raw(&path).ok().as_ref() != Some(b) {
				fail(format!("write_bytes of {:?}... ({} bytes) over {:?} bytes wrote something else", &b[..b.len().min(40)], b.len(), e.as_ref().map(|e| e.len())));
			}
			// Reading gives the text, or an error if it is none
			let want = String::from_utf8(b.clone()).ok();
			let got = fs::read_to_string(&path).ok();
			if got != want {
				fail(format!("read_to_string of the bytes {:?}... ({} bytes) gives {:?}", &b[..b.len().min(40)], b.len(), got.map(|g| g.chars().take(60).collect::<String>())));
			}
			if want.is_none() && kept(path.clone()).is_ok() {
				fail(format!("decode_from_file accepts the bytes {:?}, which are no text", &b[..b.len().min(40)]));
			}
		}
	}
	println!("N byte_strings {}", if k == 0 { blobs.len() } else { 0 });
	// errors
	for k in 0..8u8 {
		match fs::encode_to_string(&Given(Err(k))) {
			Err(e) if same(&e, &error(k)) => {}
			other => fail(format!("encode_to_string: the serialiser fails with {:?}, returned is {other:?}", error(k))),
		}
		std::fs::write(&path, format!("fail {k}")).unwrap();
		match kept(path.clone()) {
			Err(e) if same(&e, &error(k)) => {}
			other => fail(format!("decode_from_file: the deserialiser fails with {:?}, returned is {:?}", error(k), other.map(|o| o.0))),
		}
		n += 2;
	}
	let places = ["missing/f", "", "dir", "f/x", "loop", "\0"];
	std::fs::create_dir_all(dir.join("dir")).unwrap();
	let _ = std::os::unix::fs::symlink("loop", dir.join("loop"));
	for p in places {
		let q = if p.is_empty() { PathBuf::new() } else { dir.join(p) };
		if fs::read_to_string(&q).is_ok() || kept(q.clone()).is_ok() {
			fail(format!("reading {p:?} succeeds"));
		}
		for t in ["", "a", "a\n"] {
			if fs::write_to_file(&q, t).is_ok() {
				fail(format!("write_to_file of {t:?} to {p:?} succeeds"));
			}
			if fs::write_bytes(&q, &t.as_bytes().to_vec()).is_ok() {
				fail(format!("write_bytes of {t:?} to {p:?} succeeds"));
			}
			n += 3;
		}
	}
	// histories of writes to two files
	let files = [dir.join("g"), dir.join("h é")];
	let values = ["", "a\n", "longer é\r\n"];
	let depth = if thorough { 6 } else { 4 };
	let ops = files.len() * values.len() * 2;
	let mut histories = 0u64;
	for code in 0..ops.pow(depth) {
		if !shard.mine() {
			continue;
		}
		for f in &files {
			let _ = std::fs::remove_file(f);
		}
		let mut model: [Option<&str>; 2] = [None, None];
		let mut x = code;
		for _ in 0..depth {
			let op = x % ops;
			x /= ops;
			let (f, v, bytes) = (op % 2, values[op / 2 % 3], op / 6 == 1);
			let r = if bytes { fs::write_bytes(&files[f], &v.as_bytes().to_vec()) } else { fs::write_to_file(&files[f], v) };
			if r.is_err() {
				fail(format!("history {code}: a write fails"));
			}
			model[f] = Some(v);
			for k in 0..2 {
				let got = fs::read_to_string(&files[k]).ok();
				if got.as_deref() != model[k] {
					fail(format!("history {code}: file {k} holds {got:?} and not {:?}", model[k]));
				}
			}
		}
		histories += 1;
	}
	println!("N histories {histories}");
	println!("N operations {n}");
	println!("E");
	0
}

/// One operation, run with failures of the operating system. Prints what it returned.
pub fn io(op: &str, path: &str, arg: &str) -> i32 {
	let path = PathBuf::from(path);
	let text = match arg.strip_prefix("big:") {
		Some(n) => "é\n".repeat(n.parse::<usize>().unwrap() / 3),
		None => arg.to_string(),
	};
	let r: Result<String> = match op {
		"write" => fs::write_to_file(&path, &text).map(|_| String::new()),
		"bytes" => fs::write_bytes(&path, &text.clone().into_bytes()).map(|_| String::new()),
		"read" => fs::read_to_string(&path),
		_ => kept(path).map(|k| k.0),
	};
	match r {
		Ok(s) => {
			print!("{s}");
			0
		}
		Err(e) => {
			eprintln!("{e}");
			1
		}
	}
}
