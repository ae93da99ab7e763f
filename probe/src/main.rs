//! Drives the public interface of smd-core for the checks of C25, C26 and C29.

mod conf;
mod files;

use std::io::Write;

struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, r: &log::Record) {
		// Messages are formatted, as any real logger does
		let _ = format!("{}", r.args());
	}
	fn flush(&self) {}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let _ = log::set_logger(&SINK);
	log::set_max_level(log::LevelFilter::Trace);
	let code = match a.get(1).map(|s| s.as_str()) {
		Some("load") => conf::load(),
		Some("default") => {
			print!("{}", conf::show(&smd_core::config::Config::default()));
			0
		}
		Some("conf") => conf::check(&a[2], num(&a[3]), num(&a[4])),
		Some("files") => files::check(&a[2], num(&a[3]), num(&a[4]), &a[5]),
		Some("io") => files::io(&a[2], &a[3], &a[4]),
		_ => 2,
	};
	let _ = std::io::stdout().flush();
	std::process::exit(code);
}

fn num(s: &str) -> u64 {
	s.parse().unwrap()
}

/// Words and numbers of the source, in MENTIONED. They only choose cases.
pub fn mentioned() -> (Vec<String>, Vec<usize>) {
	let (mut w, mut n) = (vec![], vec![]);
	for x in std::env::var("MENTIONED").unwrap_or_default().split(',').filter(|x| !x.is_empty()) {
		if let Some(k) = x.strip_prefix('#') {
			n.extend(k.parse::<usize>());
		} else {
			let b: Vec<u8> = (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
			w.extend(String::from_utf8(b));
		}
	}
	(w, n)
}

/// Which of the cases are this process's: every `n`th, from the `k`th.
pub struct Shard {
	k: u64,
	n: u64,
	at: u64,
}
impl Shard {
	pub fn new(k: u64, n: u64) -> Self {
		Shard { k, n, at: 0 }
	}
	pub fn mine(&mut self) -> bool {
		self.at += 1;
		self.at % self.n == self.k
	}
}

/// Reports a violation and ends.
pub fn fail(what: String) -> ! {
	println!("V {}", what.replace('\n', "\\n"));
	let _ = std::io::stdout().flush();
	std::process::exit(0);
}
