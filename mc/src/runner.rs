//! Explores campaigns completely, in a worker process per check so that a
//! stack overflow, an endless loop or runaway memory is a verdict about one
//! input and not an error of the check.

use crate::space::Space;
use std::{
	collections::HashMap,
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::atomic::{AtomicBool, AtomicU64, Ordering::*},
	sync::Mutex,
	time::{Duration, Instant},
};

pub struct Ok_ {
	/// What this case shows, for counting distinct outcomes; None: trivial
	pub key: Option<u64>,
}
pub type Oracle = Box<dyn Fn(&str) -> Result<Ok_, String> + Sync + Send>;

pub struct Campaign {
	pub name: String,
	pub space: Box<dyn Space>,
	pub oracle: Oracle,
}

pub const THREADS: usize = 8;
pub const STACK: usize = 2 << 20;
pub const HANG: Duration = Duration::from_secs(25);

#[repr(C)]
pub struct Slot {
	/// 0: idle, otherwise case index + 1 (campaign in the upper 16 bits)
	pub case: AtomicU64,
	pub beat: AtomicU64,
}

pub fn map_file(path: &str, len: usize) -> *mut u8 {
	unsafe {
		let c = std::ffi::CString::new(path).unwrap();
		let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
		assert!(fd >= 0);
		assert_eq!(libc::ftruncate(fd, len as i64), 0);
		let p = libc::mmap(
			std::ptr::null_mut(),
			len,
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED,
			fd,
			0,
		);
		assert!(p != libc::MAP_FAILED);
		libc::close(fd);
		p as *mut u8
	}
}
pub fn slots(path: &str) -> &'static [Slot] {
	let p = map_file(path, THREADS * std::mem::size_of::<Slot>());
	unsafe { std::slice::from_raw_parts(p as *const Slot, THREADS) }
}

pub fn hash(s: &str) -> u64 {
	// FNV-1a with a final mix
	let mut h: u64 = 0xcbf29ce484222325;
	for b in s.bytes() {
		h ^= b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h ^= h >> 29;
	h = h.wrapping_mul(0xbf58476d1ce4e5b9);
	h ^ (h >> 32)
}

const BITS: u64 = 1 << 30;
pub struct Distinct(Vec<AtomicU64>, AtomicU64);
impl Distinct {
	pub fn new() -> Self {
		Distinct((0..BITS / 64).map(|_| AtomicU64::new(0)).collect(), AtomicU64::new(0))
	}
	pub fn add(&self, h: u64) {
		let i = h % BITS;
		let bit = 1 << (i % 64);
		let w = &self.0[(i / 64) as usize];
		if w.load(Relaxed) & bit == 0 && w.fetch_or(bit, Relaxed) & bit == 0 {
			self.1.fetch_add(1, Relaxed);
		}
	}
	pub fn count(&self) -> u64 {
		self.1.load(Relaxed)
	}
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|_| {}));
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
	p.downcast_ref::<String>()
		.cloned()
		.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
		.unwrap_or_default()
}

/// One case, with panics of the renderer as violations.
pub fn judge(c: &Campaign, input: &str) -> Result<Ok_, String> {
	match catch_unwind(AssertUnwindSafe(|| (c.oracle)(input))) {
		Ok(r) => r,
		Err(p) => Err(format!("rendering panics: {}", panic_text(p))),
	}
}

/// The worker: explores every campaign and writes its findings to `out`.
pub fn work(campaigns: &[Campaign], slot_path: &str, out_path: &str) {
	quiet_panics();
	let slots = slots(slot_path);
	let distinct = Distinct::new();
	let evaluations = AtomicU64::new(0);
	let nontrivial = AtomicU64::new(0);
	let steps = AtomicU64::new(0);
	let mut violation: Option<(usize, u64, String)> = None;
	let mut lines = vec![];
	for (ci, c) in campaigns.iter().enumerate() {
		let t0 = Instant::now();
		let n = c.space.len();
		let chunk = (n / (THREADS as u64 * 64)).clamp(1, 4096);
		let next = AtomicU64::new(0);
		let stop = AtomicBool::new(false);
		let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
		std::thread::scope(|s| {
			for slot in slots {
				let (next, stop, found) = (&next, &stop, &found);
				let (distinct, evaluations, nontrivial, steps) =
					(&distinct, &evaluations, &nontrivial, &steps);
				std::thread::Builder::new()
					.stack_size(STACK)
					.spawn_scoped(s, move || {
						let mut done = 0;
						let mut count = 0;
						crate::model::STEPS.with(|s| s.set(0));
						'all: loop {
							let from = next.fetch_add(chunk, Relaxed);
							if from >= n || stop.load(Relaxed) {
								break;
							}
							for i in from..(from + chunk).min(n) {
								if stop.load(Relaxed) {
									break 'all;
								}
								let input = c.space.get(i);
								slot.case.store(((ci as u64) << 48) | (i + 1), Relaxed);
								slot.beat.fetch_add(1, Relaxed);
								let r = judge(c, &input);
								slot.case.store(0, Relaxed);
								done += 1;
								match r {
									Ok(Ok_ { key: Some(k) }) => {
										count += 1;
										distinct.add(k);
									}
									Ok(_) => {}
									Err(e) => {
										let mut f = found.lock().unwrap();
										if f.as_ref().map_or(true, |f| i < f.0) {
											*f = Some((i, e));
										}
										stop.store(true, Relaxed);
										break 'all;
									}
								}
							}
						}
						evaluations.fetch_add(done, Relaxed);
						nontrivial.fetch_add(count, Relaxed);
						steps.fetch_add(crate::model::STEPS.with(|s| s.get()), Relaxed);
					})
					.unwrap();
			}
		});
		lines.push(format!(
			"campaign\t{}\t{}\t{}\t{:.2}",
			c.name,
			n,
			c.space.bound(),
			t0.elapsed().as_secs_f64()
		));
		if let Some((i, e)) = found.into_inner().unwrap() {
			violation = Some((ci, i, e));
			break;
		}
	}
	let mut f = std::fs::File::create(out_path).unwrap();
	for l in lines {
		writeln!(f, "{}", l).unwrap();
	}
	writeln!(f, "evaluations\t{}", evaluations.load(Relaxed)).unwrap();
	writeln!(f, "nontrivial\t{}", nontrivial.load(Relaxed)).unwrap();
	writeln!(f, "distinct\t{}", distinct.count()).unwrap();
	writeln!(f, "steps\t{}", steps.load(Relaxed)).unwrap();
	if let Some((ci, i, e)) = violation {
		writeln!(f, "violation\t{}\t{}\t{}", ci, i, e.replace('\n', "\u{2424}")).unwrap();
	}
	writeln!(f, "end").unwrap();
}

pub struct Outcome {
	pub counts: HashMap<String, u64>,
	pub campaigns: Vec<(String, u64, String)>,
	/// campaign, case, what is wrong
	pub violation: Option<(usize, u64, String)>,
}

enum End {
	Done,
	Died(String),
	Hung,
}

fn wait(child: &mut std::process::Child, slots: Option<&[Slot]>, limit: Option<Duration>) -> End {
	let t0 = Instant::now();
	let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); THREADS];
	loop {
		if let Some(status) = child.try_wait().unwrap() {
			return if status.success() { End::Done } else { End::Died(status.to_string()) };
		}
		if limit.is_some_and(|l| t0.elapsed() > l) {
			let _ = child.kill();
			let _ = child.wait();
			return End::Hung;
		}
		for (s, seen) in slots.unwrap_or(&[]).iter().zip(&mut seen) {
			let beat = s.beat.load(Relaxed);
			if s.case.load(Relaxed) == 0 || beat != seen.0 {
				*seen = (beat, Instant::now());
			} else if seen.1.elapsed() > HANG {
				let _ = child.kill();
				let _ = child.wait();
				return End::Hung;
			}
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

/// Runs the worker for a property, and finds the culprit if it does not end.
pub fn supervise(property: &str, tier: &str, scratch: &str) -> Result<Outcome, String> {
	let exe = std::env::current_exe().unwrap();
	let slot_path = format!("{scratch}/slots");
	let out_path = format!("{scratch}/out");
	let shared = slots(&slot_path);
	let spawn = |args: &[&str]| {
		std::process::Command::new(&exe)
			.args(args)
			.stdout(std::process::Stdio::null())
			.stderr(std::process::Stdio::null())
			.spawn()
			.unwrap()
	};
	let mut child = spawn(&["worker", property, tier, &slot_path, &out_path]);
	let end = wait(&mut child, Some(shared), None);
	if !matches!(end, End::Done) {
		// Which of the inputs in flight did it? Each again, alone.
		let cases: Vec<u64> =
			shared.iter().map(|s| s.case.load(Relaxed)).filter(|&c| c != 0).collect();
		for case in cases {
			let (ci, i) = ((case >> 48) as usize, (case & 0xffff_ffff_ffff) - 1);
			let mut child =
				spawn(&["one", property, tier, &ci.to_string(), &i.to_string()]);
			let what = match wait(&mut child, None, Some(HANG)) {
				End::Done => continue,
				End::Died(s) => format!("rendering ends the process ({s})"),
				End::Hung => format!("rendering does not return within {} s", HANG.as_secs()),
			};
			return Ok(Outcome {
				counts: HashMap::new(),
				campaigns: vec![],
				violation: Some((ci, i, what)),
			});
		}
		return Err(match end {
			End::Died(s) => format!("worker ended with {s}, no single input reproduces it"),
			_ => "worker hung, no single input reproduces it".into(),
		});
	}
	let text = std::fs::read_to_string(&out_path).map_err(|e| e.to_string())?;
	if !text.ends_with("end\n") {
		return Err("worker left no result".into());
	}
	let mut o = Outcome { counts: HashMap::new(), campaigns: vec![], violation: None };
	for l in text.lines() {
		let f: Vec<_> = l.split('\t').collect();
		match f[0] {
			"campaign" => o.campaigns.push((f[1].into(), f[2].parse().unwrap(), f[3].into())),
			"violation" => {
				o.violation = Some((
					f[1].parse().unwrap(),
					f[2].parse().unwrap(),
					f[3..].join("\t").replace('\u{2424}', "\n"),
				))
			}
			"end" => {}
			k => {
				o.counts.insert(k.into(), f[1].parse().unwrap());
			}
		}
	}
	Ok(o)
}
