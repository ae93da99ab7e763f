//! C17: the HTML of a document depends on nothing but its text.
//!
//! The oracle is the HTML that a fresh process gives for the document. Explored
//! are all histories (sequences of renders in one process and on one thread),
//! all log levels, and all interleavings of two and three concurrent renders at
//! their log statements within a preemption bound. The log statements of the
//! renderer are the scheduling points: the logger below hands control over.

use crate::{oracle, props, runner, space};
use std::cell::Cell;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Documents that use every construct, among them several of equal length,
/// equal beginning or equal end.
pub fn documents() -> Vec<String> {
	[
		"", "a", "b", "*a*", "*b*", "# a", "# b", "a[^1]\n\n[^1]: n", "b[^1]\n\n[^1]: m", "x[^2]\n\n[^2]: n",
		"[^1]", "[^2]", "a[^1]b[^2]\n\n[^1]: x\n[^2]: y", "- a\n- b", "- a\n- c", "1. a\n2. b", "3. a", "7) a", "- [x] a",
		"- [ ] a", "> a", ">> a", "> a\n>> b", "| a | b |\n|:-:|-:|\n| c | d |", "| a |\n|---|\n| b |", "| a |\n|-:-|\n| b |",
		"`a`", "`b`", "```rs\na\n```", "```\na", "    a", "[a](b)", "[a](c)", "![a](b)", "![a](b \"t\")",
		"[a](javascript:x)", "<http://a>", "<a@b>", "~~a~~", "~~a", "a\\*b", "a  \nb", "a\\\nb", "---",
		"<details>\n<summary>s</summary>\na\n</details>", "<details>\n<summary>t</summary>\nb\n</details>",
		"# a {#l}", "# b {#l}", "é木𐍈", "\r\na\r\n", "&amp; < > \" '", "a\n\nb\n\nc", "***a***", "_a_ __b__",
	]
	.iter()
	.map(|s| s.to_string())
	.collect()
}

/// More documents, for the histories of two: notes in all numbers and scopes,
/// and texts of many lengths that differ in one place only.
pub fn many() -> Vec<String> {
	let mut l = documents();
	for defined in 0..8u32 {
		for used in 0..8u32 {
			let id = |i: u32| ["1", "a", "b2"][i as usize];
			let uses: String = (0..3).filter(|i| used >> i & 1 == 1).map(|i| format!("x[^{}] ", id(i))).collect();
			let notes: String = (0..3).filter(|i| defined >> i & 1 == 1).map(|i| format!("[^{}]: n{i}\n", id(i))).collect();
			l.push(format!("{uses}\n\n{notes}"));
			if used != 0 {
				l.push(format!("> {uses}\n\n{notes}"));
				l.push(format!("{notes}\n- {uses}"));
			}
		}
	}
	for n in 0..12 {
		l.push(format!("{n}. a\n{}. b", n + 1));
		l.push(format!("{} a", "#".repeat(n)));
		l.push(format!("{} a", ">".repeat(n)));
		l.push(format!("{}- a", " ".repeat(n)));
		l.push(format!("{0}a{0}", "`".repeat(n)));
		l.push(format!("{0}a{0}", "*".repeat(n)));
		l.push("<details>\n<summary>s</summary>\n".repeat(n) + "a");
	}
	for len in [1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4096] {
		let text = "w".repeat(len);
		l.push(text.clone());
		for (at, c) in [(0, "*"), (len / 2, "x"), (len - 1, "y"), (len - 1, "*"), (len - 1, "\\")] {
			let mut t = text.clone();
			t.replace_range(at..at + 1, c);
			l.push(t);
		}
		l.push(format!("*{text}*"));
		l.push(format!("_{text}_"));
	}
	// the same characters in another order, with other line ends, of several lengths
	for d in ["- a\n- b *c*\n\nd\n", "# a\n\n> b\n> c\n", "```\na\n```\nb[^1]\n\n[^1]: c\n", "| a | b |\n|-|-|\n| c | d |\n"] {
		for pad in [0, 1, 3, 10] {
			let d = format!("{d}{}", "x y\n\n".repeat(pad));
			let mut lines: Vec<&str> = d.split_inclusive('\n').collect();
			lines.reverse();
			l.extend([lines.concat(), d.replace('\n', "\r\n"), d.replace('\n', "\r"), d.replace('a', "b").replacen('b', "a", 1), d.replace(['b', 'c'], "*"), d.clone()]);
		}
	}
	l.sort();
	l.dedup();
	l
}

/// Documents around every size of interest; those of a family differ in one place.
fn families(thorough: bool) -> Vec<Vec<String>> {
	let most = if thorough { 1 << 20 } else { 1 << 16 };
	let mut sizes: Vec<usize> = (5..=20).map(|k| 1 << k).chain([100, 500, 1000, 5000, 10_000, 50_000, 100_000, 1_000_000]).collect();
	sizes.extend(crate::dict::dict().numbers.iter().map(|n| *n as usize).filter(|n| *n > 8));
	sizes.sort();
	sizes.dedup();
	let mut out = vec![];
	for n in sizes.into_iter().filter(|n| *n <= most) {
		for base in ["ab cd ", "- ef\n", "g *h* i\n\n"] {
			for len in [n, n + 1, 2 * n + 1] {
				let text: String = base.chars().cycle().take(len).collect();
				let mut family = vec![text.clone()];
				for at in [0, 1, len / 4, len / 2, n - 1, n, len - 1] {
					if at < len {
						let mut t = text.clone();
						t.replace_range(at..at + 1, "z");
						family.push(t);
					}
				}
				family.dedup();
				out.push(family);
			}
		}
	}
	out
}

/// The documents of the concurrent renders: short, one per construct.
fn threaded() -> Vec<String> {
	[
		"a", "*a*", "# b", "a[^1]\n\n[^1]: n", "c[^1]\n\n[^1]: m", "- a\n- b", "- c\n- d", "3. a", "- [x] a", ">> a",
		"> b", "|a|\n|:-:|\n|b|", "|c|\n|-:|\n|d|", "`a`", "    a", "[a](b)", "![c](d)", "a  \nb", "# c {#l}",
		"<details>\n<summary>s</summary>\na\n</details>",
	]
	.iter()
	.map(|s| s.to_string())
	.collect()
}

// ---- the logger -----------------------------------------------------------

struct Points;
static LOGGER: Points = Points;

thread_local! {
	static ME: Cell<Option<usize>> = const { Cell::new(None) };
	static SEEN: Cell<u64> = const { Cell::new(0) };
}

impl log::Log for Points {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, record: &log::Record) {
		// Messages are formatted, as any real logger does
		let mut sink = Counter(0);
		let _ = std::fmt::Write::write_fmt(&mut sink, *record.args());
		SEEN.with(|s| s.set(s.get() + 1));
		if let Some(me) = ME.with(|m| m.get()) {
			point(me);
		}
	}
	fn flush(&self) {}
}

struct Counter(usize);
impl std::fmt::Write for Counter {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		self.0 += s.len();
		Ok(())
	}
}

// ---- the scheduler --------------------------------------------------------

#[derive(Default)]
struct Sched {
	turn: usize,
	alive: Vec<bool>,
	/// threads that wait for a lock of the renderer, as seen by the watcher
	stuck: Vec<bool>,
	prefix: Vec<usize>,
	/// (choice, number of enabled threads, whether the first of them is the running one)
	points: Vec<(usize, usize, bool)>,
	diverged: bool,
	progress: u64,
	started: usize,
}

static S: Mutex<Sched> =
	Mutex::new(Sched { turn: 0, alive: vec![], stuck: vec![], prefix: vec![], points: vec![], diverged: false, progress: 0, started: 0 });
static C: Condvar = Condvar::new();

impl Sched {
	fn enabled(&self, me: usize, still: bool) -> Vec<usize> {
		let mut e = vec![];
		if still {
			e.push(me);
		}
		for t in 0..self.alive.len() {
			if t != me && self.alive[t] && !self.stuck[t] {
				e.push(t);
			}
		}
		e
	}
	fn choose(&mut self, me: usize, still: bool) {
		self.progress += 1;
		let e = self.enabled(me, still);
		if e.is_empty() {
			// Somebody who was stuck can go on now
			if let Some(t) = (0..self.alive.len()).find(|&t| self.alive[t]) {
				self.turn = t;
			}
			return;
		}
		if e.len() == 1 {
			self.turn = e[0];
			return;
		}
		let k = self.points.len();
		let mut c = self.prefix.get(k).copied().unwrap_or(0);
		if c >= e.len() {
			self.diverged = true;
			c = 0;
		}
		self.points.push((c, e.len(), still));
		self.turn = e[c];
	}
}

fn wait_turn(mut s: std::sync::MutexGuard<'_, Sched>, me: usize) {
	while s.turn != me {
		s = C.wait(s).unwrap();
	}
	s.stuck[me] = false;
}

fn point(me: usize) {
	let mut s = S.lock().unwrap();
	s.stuck[me] = false;
	if s.turn != me {
		// It was taken for stuck and came back: it has to wait again
		return wait_turn(s, me);
	}
	s.choose(me, true);
	if s.turn != me {
		C.notify_all();
		wait_turn(s, me);
	}
}

struct Run {
	outputs: Vec<String>,
	points: Vec<(usize, usize, bool)>,
	diverged: bool,
	blocked: bool,
}

fn run(docs: &[&String], prefix: &[usize]) -> Run {
	let n = docs.len();
	{
		let mut s = S.lock().unwrap();
		*s = Sched { turn: n, alive: vec![true; n], stuck: vec![false; n], prefix: prefix.to_vec(), ..Default::default() };
	}
	let mut blocked = false;
	let outputs = std::thread::scope(|scope| {
		let handles: Vec<_> = (0..n)
			.map(|t| {
				let doc = docs[t];
				scope.spawn(move || {
					{
						let mut s = S.lock().unwrap();
						s.started += 1;
						if s.started == n {
							// the first choice: who begins
							s.choose(n, false);
							C.notify_all();
						}
						wait_turn(s, t);
					}
					ME.with(|m| m.set(Some(t)));
					let r = std::panic::catch_unwind(|| oracle::render(doc));
					ME.with(|m| m.set(None));
					let mut s = S.lock().unwrap();
					s.alive[t] = false;
					s.stuck[t] = false;
					if s.turn == t {
						s.choose(t, false);
					}
					C.notify_all();
					r.unwrap_or_else(|p| format!("panic: {}", runner::panic_text(p)))
				})
			})
			.collect();
		// A render that waits for a lock which a waiting render holds
		let mut last = (u64::MAX, Instant::now());
		let since = Instant::now();
		while handles.iter().any(|h| !h.is_finished()) {
			std::hint::spin_loop();
			std::thread::yield_now();
			if last.1.elapsed() > Duration::from_millis(15) {
				let mut s = S.lock().unwrap();
				if since.elapsed() > Duration::from_secs(30) {
					let all: Vec<&String> = docs.to_vec();
					println!("V {}", hex(&format!("documents {all:?} rendered at the same time: no render ends")));
					std::process::exit(0);
				}
				if s.progress == last.0 && s.turn < n && s.alive[s.turn] {
					blocked = true;
					let t = s.turn;
					s.stuck[t] = true;
					if let Some(o) = (0..n).find(|&o| s.alive[o] && !s.stuck[o]) {
						s.turn = o;
						C.notify_all();
					}
				}
				last = (s.progress, Instant::now());
			}
		}
		handles.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
	});
	let s = S.lock().unwrap();
	Run { outputs, points: s.points.clone(), diverged: s.diverged, blocked }
}

struct Explorer<'a> {
	docs: Vec<&'a String>,
	want: Vec<&'a String>,
	bound: usize,
	schedules: u64,
	steps: u64,
	blocked: u64,
	diverged: u64,
}

impl Explorer<'_> {
	fn explore(&mut self, prefix: &[usize]) -> Result<(), String> {
		if self.blocked > 40 {
			return Ok(());
		}
		let x = run(&self.docs, prefix);
		self.schedules += 1;
		self.steps += x.points.len() as u64;
		self.blocked += x.blocked as u64;
		for (i, o) in x.outputs.iter().enumerate() {
			if o != self.want[i] {
				let choices: Vec<usize> = x.points.iter().map(|p| p.0).collect();
				return Err(format!(
					"documents {:?} rendered at the same time, schedule {:?}: render {} gives {:?} and not {:?}",
					self.docs, choices, i, o, self.want[i]
				));
			}
		}
		// A render that takes other steps than before (it may have filled a cache)
		// is no violation, but the schedules below it are not those asked for.
		if x.diverged {
			self.diverged += 1;
		}
		if x.blocked || x.diverged {
			return Ok(());
		}
		let cost = |k: usize| x.points[..k].iter().filter(|p| p.2 && p.0 != 0).count();
		for i in prefix.len()..x.points.len() {
			let (_, n, still) = x.points[i];
			if cost(i) + still as usize > self.bound {
				continue;
			}
			for alt in 1..n {
				let mut p: Vec<usize> = x.points[..i].iter().map(|p| p.0).collect();
				p.push(alt);
				self.explore(&p)?;
			}
		}
		Ok(())
	}
}

// ---- the check ------------------------------------------------------------

fn fresh(exe: &std::path::Path, doc: &str, env: &[(&str, &str)], dir: &str) -> Result<String, String> {
	let mut c = Command::new(exe);
	c.arg("render").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).current_dir(dir);
	for (k, v) in env {
		c.env(k, v);
	}
	let mut p = c.spawn().map_err(|e| e.to_string())?;
	p.stdin.take().unwrap().write_all(doc.as_bytes()).map_err(|e| e.to_string())?;
	let o = p.wait_with_output().map_err(|e| e.to_string())?;
	if !o.status.success() {
		return Ok(format!("render failed: {:?}", o.status));
	}
	Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

fn hex(s: &str) -> String {
	s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
	let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
	String::from_utf8(b).unwrap()
}

/// Documents that also begin or end with white space, each rendered over and over
/// in a process of its own.
fn repeated() -> Vec<String> {
	let mut l = documents();
	l.extend(
		[
			"  a\n\n", "\n\na", "a\n\n\n", "\ta\n", "\n    a\n\n    b\n  ", "a  \n", "- a\n  \n", " # a #  \n", "```\na\n\n\n```\n\n", "  \n", "\n", "   - a\n     - b\n",
			"A", "# A B\n\nc\n", "a\tb\n", "[A](B \"C\")\n", "x[^a]\n[^a]: N\n  M\n", "<details>\n<summary>S</summary>\n\nx\n\n</details>\n\nb\n",
		]
		.iter()
		.map(|s| s.to_string()),
	);
	l.extend(many().into_iter().filter(|d| d.len() <= 300));
	l.sort();
	l.dedup();
	l
}

/// Runs in a process of its own: renders the document of the standard input again and again.
pub fn again(times: u64) {
	runner::quiet_panics();
	let mut d = String::new();
	std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap();
	let first = oracle::render(&d);
	for nth in 2..=times {
		let got = std::panic::catch_unwind(|| oracle::render(&d)).unwrap_or_else(|p| format!("panic: {}", runner::panic_text(p)));
		if got != first {
			println!("V {}", hex(&format!("render number {nth} of {d:?} in one process gives {got:?} and not {first:?}")));
			return;
		}
	}
	println!("E");
}

pub struct Verdict {
	pub counts: Vec<(String, u64)>,
	pub violation: Option<String>,
}

/// Runs in a worker process: shard `k` of `n`.
pub fn work(tier: &str, expected: &str, k: u64, n: u64) {
	runner::quiet_panics();
	log::set_logger(&LOGGER).unwrap();
	log::set_max_level(log::LevelFilter::Off);
	let thorough = tier == "thorough";
	let docs = documents();
	let table: Vec<(String, String)> = std::fs::read_to_string(expected)
		.unwrap()
		.lines()
		.map(|l| {
			let (a, b) = l.split_once(' ').unwrap();
			(unhex(a), unhex(b))
		})
		.collect();
	let want = |d: &String| &table.iter().find(|(a, _)| a == d).unwrap().1;
	let fail = |m: String| {
		println!("V {}", hex(&m));
		std::process::exit(0);
	};
	let render = |d: &str| {
		std::panic::catch_unwind(|| oracle::render(d)).unwrap_or_else(|p| format!("panic: {}", runner::panic_text(p)))
	};
	let wants: Vec<&String> = docs.iter().map(want).collect();
	let m = docs.len();
	// A caller may keep one buffer for all its documents
	let mut buffer = String::with_capacity(1 << 16);
	let mut render_in = |d: &str, shared: bool| {
		if !shared {
			return render(d);
		}
		buffer.clear();
		buffer.push_str(d);
		render(&buffer)
	};
	// all histories
	let depth = if thorough { 4 } else { 3 };
	let (mut histories, mut renders) = (0u64, 0u64);
	let total = (m as u64).pow(depth);
	for h in (k..total).step_by(n as usize) {
		let mut x = h;
		let seq: Vec<usize> = (0..depth)
			.map(|_| {
				let d = (x % m as u64) as usize;
				x /= m as u64;
				d
			})
			.collect();
		for (shared, (j, &d)) in [false, true].into_iter().flat_map(|b| seq.iter().enumerate().map(move |x| (b, x))) {
			let got = render_in(&docs[d], shared);
			renders += 1;
			if &got != wants[d] {
				let before: Vec<&String> = seq[..j].iter().map(|&d| &docs[d]).collect();
				fail(format!(
					"after {before:?} (and {} renders before that), document {:?} gives {got:?} and not {:?}",
					renders, docs[d], wants[d]
				));
			}
		}
		histories += 1;
	}
	let many = many();
	let many_wants: Vec<&String> = many.iter().map(want).collect();
	for i in (k as usize..many.len()).step_by(n as usize) {
		for j in 0..many.len() {
			for (shared, d) in [(false, i), (false, j), (true, i), (true, j)] {
				let got = render_in(&many[d], shared);
				renders += 1;
				if &got != many_wants[d] {
					fail(format!(
						"after {:?} and {:?} (and {renders} renders before that), document {:?} gives {got:?} and not {:?}",
						many[i], many[j], many[d], many_wants[d]
					));
				}
			}
			histories += 1;
		}
	}
	// large documents that differ in one place, one after another
	let exe = std::env::current_exe().unwrap();
	for (i, family) in families(thorough).into_iter().enumerate() {
		if i as u64 % n != k {
			continue;
		}
		let wants: Vec<String> = family.iter().map(|d| fresh(&exe, d, &[], "/").unwrap_or_else(|e| format!("panic: {e}"))).collect();
		for a in 0..family.len() {
			for b in 0..family.len() {
				for (shared, d) in [(false, a), (false, b), (true, a), (true, b)] {
					let got = render_in(&family[d], shared);
					renders += 1;
					if got != wants[d] {
						let at = got.bytes().zip(wants[d].bytes()).take_while(|(x, y)| x == y).count();
						fail(format!("two documents of {} and {} bytes that differ in a few places, one after another: the output of the second differs at byte {at} from that of a process of its own; it begins {:?}", family[a].len(), family[b].len(), family[d].chars().take(80).collect::<String>()));
					}
				}
				histories += 1;
			}
		}
	}
	println!("N histories {histories}");
	println!("N renders {renders}");
	// all log levels
	let mut logged = 0u64;
	let mut messages = 0u64;
	let spaces: Vec<Box<dyn space::Space>> = vec![
		props::short_text(if thorough { 4 } else { 3 }),
		props::every_character(thorough),
		Box::new(space::List(docs.clone(), String::new())),
		props::short_lines(if thorough { 3 } else { 2 }),
		// Texts around every power of two up to 256 and multi-byte characters at their end
		{
			let mut l = vec![];
			for len in 0..=300usize {
				for tail in ["é", "木", "𐍈", "a\né", "*é*"] {
					l.push("a".repeat(len) + tail + "b");
				}
			}
			Box::new(space::List(l, String::new()))
		},
	];
	for s in &spaces {
		for i in (k..s.len()).step_by(n as usize) {
			let d = s.get(i);
			log::set_max_level(log::LevelFilter::Off);
			let off = render(&d);
			for level in [log::LevelFilter::Trace, log::LevelFilter::Debug, log::LevelFilter::Info, log::LevelFilter::Warn, log::LevelFilter::Error] {
				// the levels in between show a subset of the messages
				if level != log::LevelFilter::Trace && !matches!(s.len(), 0..=2000) {
					continue;
				}
				log::set_max_level(level);
				SEEN.with(|s| s.set(0));
				let on = render(&d);
				logged += 1;
				messages += SEEN.with(|s| s.get());
				if on != off {
					fail(format!("document {d:?} gives {on:?} with log level {level} and {off:?} without logging"));
				}
			}
		}
	}
	println!("N logged {logged}");
	println!("N messages {messages}");
	// all interleavings
	log::set_max_level(log::LevelFilter::Trace);
	let t = threaded();
	let mut jobs: Vec<(Vec<&String>, usize)> = vec![];
	for i in 0..t.len() {
		for j in i..t.len() {
			jobs.push((vec![&t[i], &t[j]], if thorough { 3 } else { 2 }));
		}
	}
	let few: Vec<&String> = ["a", "a[^1]\n\n[^1]: n", "- a\n- b", ">> a", "|a|\n|:-:|\n|b|"].iter().map(|s| t.iter().find(|d| d == s).unwrap()).collect();
	for i in 0..few.len() {
		for j in i..few.len() {
			for l in j..few.len() {
				jobs.push((vec![few[i], few[j], few[l]], if thorough { 2 } else { 1 }));
			}
		}
	}
	let (mut schedules, mut steps, mut blocked, mut diverged) = (0, 0, 0, 0);
	for (i, (d, bound)) in jobs.into_iter().enumerate() {
		if i as u64 % n != k {
			continue;
		}
		let want: Vec<&String> = d.iter().map(|d| want(d)).collect();
		let long = d.iter().map(|d| d.len()).sum::<usize>() > 60;
		let mut e = Explorer { docs: d, want, bound: if thorough && long { 2 } else { bound }, schedules: 0, steps: 0, blocked, diverged: 0 };
		for d in &e.docs {
			render(d);
		}
		if let Err(m) = e.explore(&[]) {
			fail(m);
		}
		schedules += e.schedules;
		steps += e.steps;
		blocked = e.blocked;
		diverged += e.diverged;
	}
	println!("N schedules {schedules}");
	println!("N steps {steps}");
	println!("N blocked {blocked}");
	println!("N diverged {diverged}");
	println!("E");
}

pub fn check(tier: &str, scratch: &str) -> Result<Verdict, String> {
	let exe = std::env::current_exe().map_err(|e| e.to_string())?;
	let mut docs = documents();
	docs.extend(threaded());
	let once = docs.len();
	docs.extend(many());
	let mut table = String::new();
	let mut processes = 0u64;
	for (i, d) in docs.iter().enumerate() {
		let first = fresh(&exe, d, &[], scratch)?;
		processes += 1;
		if i >= once {
			table.push_str(&format!("{} {}\n", hex(d), hex(&first)));
			continue;
		}
		for (env, dir) in [
			(&[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo")][..], "/"),
			(&[("HOME", "/nonexistent"), ("RUST_LOG", "trace"), ("SMD__PARSE__ON_PARSE_ERROR", "skip")][..], scratch),
		] {
			let again = fresh(&exe, d, env, dir)?;
			processes += 1;
			if again != first {
				return Ok(Verdict {
					counts: vec![],
					violation: Some(format!("document {d:?} gives {first:?} in one process and {again:?} in another")),
				});
			}
		}
		table.push_str(&format!("{} {}\n", hex(d), hex(&first)));
	}
	let repeated = repeated();
	let times = if tier == "thorough" { 1_100_000 } else { 70_000 };
	let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
	let next = std::sync::atomic::AtomicUsize::new(0);
	let found: Mutex<Option<String>> = Mutex::new(None);
	std::thread::scope(|s| {
		for _ in 0..threads {
			s.spawn(|| {
				while let Some(d) = repeated.get(next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) {
					// the documents of all constructs most often
					let n = if docs[..once].contains(d) || d.len() < 60 { times } else { times / 10 };
					let mut p = Command::new(&exe).args(["again", &n.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).current_dir(scratch).spawn().unwrap();
					p.stdin.take().unwrap().write_all(d.as_bytes()).unwrap();
					let o = p.wait_with_output().unwrap();
					let text = String::from_utf8_lossy(&o.stdout).into_owned();
					let m = match text.trim().split_once(' ') {
						Some(("V", m)) => unhex(m),
						_ if text.trim() == "E" => continue,
						_ => format!("a process that renders {d:?} again and again died ({:?})", o.status),
					};
					found.lock().unwrap().get_or_insert(m);
					next.store(repeated.len(), std::sync::atomic::Ordering::SeqCst);
				}
			});
		}
	});
	processes += repeated.len() as u64;
	if let Some(m) = found.into_inner().unwrap() {
		return Ok(Verdict { counts: vec![], violation: Some(m) });
	}
	let path = format!("{scratch}/expected");
	std::fs::write(&path, table).map_err(|e| e.to_string())?;
	let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
	let workers: Vec<_> = (0..n)
		.map(|k| {
			Command::new(&exe)
				.args(["pure", tier, &path, &k.to_string(), &n.to_string()])
				.stdin(Stdio::null())
				.stdout(Stdio::piped())
				.stderr(Stdio::null())
				.spawn()
				.unwrap()
		})
		.collect();
	let mut counts = std::collections::BTreeMap::new();
	counts.insert("processes".to_string(), processes);
	let mut violation = None;
	for w in workers {
		let o = w.wait_with_output().map_err(|e| e.to_string())?;
		let text = String::from_utf8_lossy(&o.stdout).into_owned();
		let mut ended = false;
		for l in text.lines() {
			match l.split_once(' ') {
				Some(("V", m)) => {
					ended = true;
					violation.get_or_insert(unhex(m));
				}
				Some(("N", c)) => {
					let (a, b) = c.split_once(' ').unwrap();
					*counts.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap();
				}
				_ => ended |= l == "E",
			}
		}
		if !ended {
			violation.get_or_insert(format!("a process that renders documents one after another died ({:?}), after {text:?}", o.status));
		}
	}
	Ok(Verdict { counts: counts.into_iter().collect(), violation })
}
