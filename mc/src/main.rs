mod dict;
mod html;
mod model;
mod oracle;
mod props;
mod pure;
mod runner;
mod space;

use std::time::Instant;

fn json(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			'\r' => o.push_str("\\r"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o + "\""
}

fn limit_memory() {
	unsafe {
		let l = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
		libc::setrlimit(libc::RLIMIT_AS, &l);
		let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
		libc::setrlimit(libc::RLIMIT_CORE, &c);
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
	match arg(1) {
		"worker" => {
			limit_memory();
			let p = props::property(arg(2), arg(3)).unwrap();
			runner::work(&p.campaigns, arg(4), arg(5));
		}
		"one" => {
			limit_memory();
			let p = props::property(arg(2), arg(3)).unwrap();
			let c = &p.campaigns[arg(4).parse::<usize>().unwrap()];
			let input = c.space.get(arg(5).parse().unwrap());
			std::thread::scope(|s| {
				let _ = std::thread::Builder::new()
					.stack_size(runner::STACK)
					.spawn_scoped(s, || {
						let _ = runner::judge(c, &input);
					})
					.unwrap()
					.join();
			});
		}
		"pure" => {
			limit_memory();
			pure::work(arg(2), arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap());
		}
		// all inputs on which a campaign fails (for development)
		"dev" => {
			runner::quiet_panics();
			let p = props::property(arg(2), arg(3)).unwrap();
			let max: usize = arg(4).parse().unwrap_or(10);
			for c in &p.campaigns {
				let t = Instant::now();
				let mut n = 0;
				let limit: u64 = arg(5).parse().unwrap_or(u64::MAX);
				for i in 0..c.space.len().min(limit) {
					let input = c.space.get(i);
					if let Err(e) = runner::judge(c, &input) {
						println!("{} {:?}\n  {}", c.name, input, e);
						n += 1;
						if n >= max {
							break;
						}
					}
				}
				println!("-- {} {} cases {:?}", c.name, c.space.len(), t.elapsed());
			}
		}
		"dict" => {
			dict::print(&dict::of(&std::env::args().skip(2).collect::<Vec<_>>()));
		}
		"sizes" => {
			for id in props::IDS {
				for tier in ["quick", "thorough"] {
					let p = props::property(id, tier).unwrap();
					let n: u64 = p.campaigns.iter().map(|c| c.space.len()).sum();
					println!("{id} {tier} {n}");
					if arg(2) == "-v" {
						for c in &p.campaigns {
							println!("   {:>12} {}", c.space.len(), c.name);
						}
					}
				}
			}
		}
		"again" => pure::again(arg(2).parse().unwrap()),
		"render" => {
			let mut s = String::new();
			std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
			print!("{}", oracle::render(&s));
		}
		// judges one document, the recorded way to replay a violation
		"replay" => {
			let s = std::fs::read_to_string(arg(4)).unwrap();
			let p = props::property(arg(2), arg(3)).unwrap();
			let c = p.campaigns.iter().find(|c| c.name == arg(5)).unwrap();
			println!("html: {:?}", oracle::render(&s));
			match runner::judge(c, &s) {
				Ok(_) => println!("holds"),
				Err(e) => {
					println!("violated: {e}");
					std::process::exit(1);
				}
			}
		}
		"check" => std::process::exit(check(arg(2), arg(3), arg(4))),
		_ => {
			eprintln!("usage: mc check <property> <tier> <verif dir>");
			std::process::exit(2);
		}
	}
}

fn check(id: &str, tier: &str, verif: &str) -> i32 {
	let t0 = Instant::now();
	if id == "C17" {
		return check_pure(tier, verif);
	}
	let Some(p) = props::property(id, tier) else {
		eprintln!("unknown property {id}");
		return 2;
	};
	let scratch = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
	std::fs::create_dir_all(&scratch).unwrap();
	let outcome = runner::supervise(id, tier, scratch.to_str().unwrap());
	let _ = std::fs::remove_dir_all(&scratch);
	let outcome = match outcome {
		Ok(o) => o,
		Err(e) => {
			eprintln!("error: {e}");
			return 2;
		}
	};
	let get = |k: &str| outcome.counts.get(k).copied().unwrap_or(0);
	let mut samples = vec![];
	for c in &p.campaigns {
		let n = c.space.len();
		if n > 0 && samples.len() < 24 {
			let input = c.space.get(n * 2 / 3);
			samples.push(format!(
				"{{\"campaign\": {}, \"document\": {}}}",
				json(&c.name),
				json(&input.chars().take(300).collect::<String>())
			));
		}
	}
	let spaces: Vec<String> = outcome
		.campaigns
		.iter()
		.map(|(n, l, b)| {
			format!("{{\"campaign\": {}, \"cases\": {}, \"bound\": {}}}", json(n), l, json(b))
		})
		.collect();
	let counts = match p.level {
		"model_checking" => format!(
			"\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}",
			get("distinct"),
			get("steps"),
			get("evaluations")
		),
		_ => format!(
			"\"evaluations\": {}, \"distinct_nontrivial\": {}",
			get("evaluations"),
			get("distinct")
		),
	};
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let ev = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
		json(id),
		json(tier),
		seed,
		json(p.level),
		counts,
		json(p.rule),
		outcome.violation.is_none(),
		spaces.join(",\n   "),
		samples.join(",\n   "),
		p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
		t0.elapsed().as_secs_f64(),
		outcome.violation.is_some() as u8
	);
	let dir = format!("{verif}/evidence");
	std::fs::create_dir_all(&dir).unwrap();
	std::fs::write(format!("{dir}/{id}.json"), ev).unwrap();
	for (n, l, b) in &outcome.campaigns {
		println!("{id}: {n}: {l} cases: {b}");
	}
	println!(
		"{id}: {} documents, {} distinct outcomes, {} model steps, {:.1} s",
		get("evaluations"),
		get("distinct"),
		get("steps"),
		t0.elapsed().as_secs_f64()
	);
	if let Some((ci, i, what)) = outcome.violation {
		let c = &p.campaigns[ci];
		let input = c.space.get(i);
		let path = format!("{dir}/{id}.replay.md");
		std::fs::write(&path, &input).unwrap();
		std::fs::write(
			format!("{dir}/{id}.replay.txt"),
			format!(
				"property: {id}\ncampaign: {}\ncase: {i}\ndocument: {input:?}\nproblem: {what}\nreplay: mc replay {id} {tier} {path} {:?}\n",
				c.name, c.name
			),
		)
		.unwrap();
		println!("document: {:?}", input.chars().take(400).collect::<String>());
		println!("problem: {}", what.chars().take(1500).collect::<String>());
		println!("VIOLATION property={id} replay={path}");
		return 1;
	}
	0
}

fn check_pure(tier: &str, verif: &str) -> i32 {
	let t0 = Instant::now();
	let scratch = std::env::temp_dir().join(format!("mc-C17-{}", std::process::id()));
	std::fs::create_dir_all(&scratch).unwrap();
	let v = pure::check(tier, scratch.to_str().unwrap());
	let _ = std::fs::remove_dir_all(&scratch);
	let v = match v {
		Ok(v) => v,
		Err(e) => {
			eprintln!("error: {e}");
			return 2;
		}
	};
	let get = |k: &str| v.counts.iter().find(|c| c.0 == k).map_or(0, |c| c.1);
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let samples: Vec<String> = pure::documents().iter().step_by(7).map(|d| json(d)).collect();
	let ev = format!(
		"{{\n \"property\": \"C17\",\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"schedules\": {},\n  \"schedules_with_blocking\": {},\n  \"histories\": {},\n  \"documents_with_and_without_logging\": {},\n  \"log_messages\": {},\n  \"fresh_processes\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
		json(tier),
		get("histories") + get("schedules"),
		get("renders") + get("steps"),
		get("histories") + get("schedules") + get("logged"),
		get("schedules"),
		get("blocked"),
		get("histories"),
		get("logged"),
		get("messages"),
		get("processes"),
		v.violation.is_none() && get("blocked") + get("diverged") == 0,
		json("states: executions (histories of renders in one process, and schedules of concurrent renders); transitions: renders in histories plus scheduling decisions with more than one enabled thread; traces: executions of the real renderer whose every output was compared with that of a fresh process (or, for logging, of the same process without it). Histories: all sequences of 3 (thorough: 4) of the documents. Schedules: 2 threads with at most 2 (3) preemptions and 3 threads with at most 1 (2), scheduling points at every log statement."),
		samples.join(", "),
		json("gfm is safe Rust, so that code between two log statements that touches shared state does so through locks or atomics; interleavings inside of it are not explored"),
		t0.elapsed().as_secs_f64(),
		v.violation.is_some() as u8
	);
	let dir = format!("{verif}/evidence");
	std::fs::create_dir_all(&dir).unwrap();
	std::fs::write(format!("{dir}/C17.json"), ev).unwrap();
	for (k, n) in &v.counts {
		println!("C17: {n} {k}");
	}
	if let Some(m) = v.violation {
		let path = format!("{dir}/C17.replay.txt");
		std::fs::write(&path, &m).unwrap();
		println!("problem: {}", m.chars().take(1500).collect::<String>());
		println!("VIOLATION property=C17 replay={path}");
		return 1;
	}
	0
}
