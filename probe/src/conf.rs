//! C26: configuration is loaded as written or rejected.

use crate::{fail, Shard};
use smd_core::config::Config;
use std::collections::BTreeSet;
use toml::Value;

pub fn show(c: &Config) -> String {
	toml::to_string(c).unwrap_or_else(|e| format!("unprintable: {e}"))
}

pub fn load() -> i32 {
	match Config::load_config() {
		Ok(c) => {
			print!("{}", show(&c));
			0
		}
		Err(e) => {
			eprintln!("{e}");
			1
		}
	}
}

/// A configuration as the model sees it, or None for an error.
type Loaded = Option<(String, bool)>;

fn read(c: &Config) -> Result<(String, bool), String> {
	let text = show(c);
	let v: Value = toml::from_str(&text).map_err(|e| e.to_string())?;
	let p = v.get("parse").ok_or("no parse table")?;
	let a = p.get("on_parse_error").and_then(|v| v.as_str()).ok_or("no action")?;
	let k = p.get("keep_temp_files").and_then(|v| v.as_bool()).ok_or("no flag")?;
	Ok((a.to_string(), k))
}

const ACTIONS: [&str; 3] = ["abort", "skip", "serialize"];

/// What a value may be taken for. Kinds that are near enough may be accepted or refused.
fn action(v: Option<&Value>) -> Vec<Option<String>> {
	match v {
		Some(Value::String(s)) if ACTIONS.contains(&s.as_str()) => vec![Some(s.clone())],
		Some(Value::String(s)) if ACTIONS.contains(&s.to_lowercase().as_str()) => vec![None, Some(s.to_lowercase())],
		// the form in which data formats write a variant: a table with its name alone
		Some(Value::Table(t)) if t.len() == 1 && ACTIONS.contains(&t.keys().next().unwrap().to_lowercase().as_str()) => {
			vec![None, Some(t.keys().next().unwrap().to_lowercase())]
		}
		_ => vec![None],
	}
}
fn flag(v: Option<&Value>) -> Vec<Option<bool>> {
	match v {
		Some(Value::Boolean(b)) => vec![Some(*b)],
		Some(Value::Integer(i)) => vec![None, Some(*i != 0)],
		Some(Value::Float(f)) => vec![None, Some(*f != 0.0)],
		Some(Value::String(s)) => word(s),
		_ => vec![None],
	}
}
fn word(s: &str) -> Vec<Option<bool>> {
	match s.to_lowercase().as_str() {
		"true" | "yes" | "on" | "1" => vec![None, Some(true)],
		"false" | "no" | "off" | "0" => vec![None, Some(false)],
		_ => vec![None],
	}
}

/// The values of a table under a name, written in any case.
fn named<'a>(t: Option<&'a Value>, name: &str) -> (Option<&'a Value>, Vec<&'a Value>) {
	let Some(Value::Table(t)) = t else { return (None, vec![]) };
	let exact = t.get(name);
	let others = t.iter().filter(|(k, _)| *k != name && k.to_lowercase() == name).map(|(_, v)| v).collect();
	(exact, others)
}

/// Everything that loading may give. `None`: an error.
fn allowed(text: &str, env_action: Option<&str>, env_flag: Option<&str>) -> Option<BTreeSet<Loaded>> {
	let root: Result<Value, _> = toml::from_str(text);
	let Ok(root) = root else { return Some([None].into()) };
	let Value::Table(top) = &root else { return Some([None].into()) };
	// Keys that are paths themselves are not judged
	if top.keys().any(|k| k.contains(['.', '[', ']', ' ']) || (k.to_lowercase() == "parse" && k != "parse")) {
		return None;
	}
	if let Some(Value::Table(p)) = top.get("parse") {
		if p.keys().any(|k| k.contains(['.', '[', ']', ' '])) {
			return None;
		}
	}
	let parse = top.get("parse");
	let mut actions: Vec<Option<String>>;
	let (exact, others) = named(parse, "on_parse_error");
	actions = action(exact);
	for o in others {
		actions.extend(action(Some(o)));
		actions.push(None);
	}
	let mut flags: Vec<Option<bool>>;
	let (exact, others) = named(parse, "keep_temp_files");
	flags = flag(exact);
	for o in others {
		flags.extend(flag(Some(o)));
		flags.push(None);
	}
	// A parse value that is no table at all
	let whole = matches!(parse, None | Some(Value::Table(_)));
	match env_action {
		Some("") => actions.push(None),
		Some(s) => {
			let bad = actions.iter().all(|a| a.is_none()) && exact_wrong(parse, "on_parse_error");
			actions = action(Some(&Value::String(s.to_string())));
			if bad {
				actions.push(None);
			}
		}
		None => {}
	}
	match env_flag {
		Some("") => flags.push(None),
		Some(s) => {
			let bad = flags.iter().all(|a| a.is_none()) && exact_wrong(parse, "keep_temp_files");
			flags = if s == "true" || s == "false" { vec![Some(s == "true")] } else { word(s) };
			if bad {
				flags.push(None);
			}
		}
		None => {}
	}
	let mut r = BTreeSet::new();
	for a in &actions {
		for f in &flags {
			r.insert(match (a, f) {
				(Some(a), Some(f)) => Some((a.clone(), *f)),
				_ => None,
			});
		}
	}
	if !whole {
		r.insert(None);
	}
	Some(r)
}

/// The file has the value, but not one of the right kind.
fn exact_wrong(parse: Option<&Value>, name: &str) -> bool {
	match parse {
		Some(Value::Table(t)) => t.get(name).is_some(),
		Some(_) => true,
		None => false,
	}
}

static CASE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

struct Counts {
	shard: Shard,
	cases: u64,
	errors: u64,
	loaded: u64,
	skipped: u64,
}

fn judge(n: &mut Counts, text: &str, a: Option<&str>, k: Option<&str>) {
	if !n.shard.mine() {
		return;
	}
	match a {
		Some(v) => std::env::set_var("SMD__PARSE__ON_PARSE_ERROR", v),
		None => std::env::remove_var("SMD__PARSE__ON_PARSE_ERROR"),
	}
	match k {
		Some(v) => std::env::set_var("SMD__PARSE__KEEP_TEMP_FILES", v),
		None => std::env::remove_var("SMD__PARSE__KEEP_TEMP_FILES"),
	}
	let what = || format!("configuration {text:?}, SMD__PARSE__ON_PARSE_ERROR={a:?}, SMD__PARSE__KEEP_TEMP_FILES={k:?}");
	{
		let mut c = CASE.lock().unwrap();
		c.clear();
		c.push_str(text);
	}
	let got = match Config::parse_from_str(text) {
		Err(_) => None,
		Ok(c) => match read(&c) {
			Ok(v) => Some(v),
			Err(e) => fail(format!("{}: the loaded configuration cannot be read: {e}", what())),
		},
	};
	n.cases += 1;
	if got.is_some() {
		n.loaded += 1
	} else {
		n.errors += 1
	}
	match allowed(text, a, k) {
		None => n.skipped += 1,
		Some(want) => {
			if !want.contains(&got) {
				fail(format!("{}: gives {got:?}, right would be {want:?} (None: an error)", what()));
			}
		}
	}
}

pub fn check(tier: &str, k: u64, shards: u64) -> i32 {
	std::panic::set_hook(Box::new(|_| fail(format!("{}: loading panics", CASE.lock().map_or_else(|e| e.into_inner().clone(), |c| c.clone())))));
	let thorough = tier == "thorough";
	let mut n = Counts { shard: Shard::new(k, shards), cases: 0, errors: 0, loaded: 0, skipped: 0 };
	// Part 1: all combinations of values, layouts and the environment
	let actions = [
		"", "\"abort\"", "\"skip\"", "\"serialize\"", "'skip'", "\"\"\"abort\"\"\"", "\"Abort\"", "\"SKIP\"", "\"\"", "\"explode\"", "\" skip\"", "\"skip \"",
		"1", "true", "[\"skip\"]", "{ skip = 1 }", "{}", "1979-05-27", "\"ski\\u0070\"", "\"s\"", "\"abortskip\"",
	];
	let flags = [
		"", "true", "false", "\"true\"", "\"false\"", "\"yes\"", "\"maybe\"", "\"\"", "1", "0", "2", "-1", "1.5", "0.0", "nan", "[true]", "{ a = true }", "\"t\"", "1979-05-27", "'on'",
	];
	let extras = ["", "other = 1\n", "[other]\nx = \"y\"\n", "# comment\n"];
	let env_actions = [None, Some("abort"), Some("skip"), Some("serialize"), Some("explode"), Some(""), Some("Skip"), Some(" abort"), Some("0")];
	let env_flags = [None, Some("true"), Some("false"), Some("maybe"), Some(""), Some("1"), Some("no"), Some("TRUE"), Some(" true")];
	let layouts = 5;
	for (i, a) in actions.iter().enumerate() {
		for (j, k) in flags.iter().enumerate() {
			for layout in 0..layouts {
				let pair = |eq: &str, prefix: &str, sep: &str, swap: bool| {
					let mut p = vec![];
					if !a.is_empty() {
						p.push(format!("{prefix}on_parse_error{eq}{a}"));
					}
					if !k.is_empty() {
						p.push(format!("{prefix}keep_temp_files{eq}{k}"));
					}
					if swap {
						p.reverse();
					}
					p.join(sep)
				};
				for (e, extra) in extras.iter().enumerate() {
					let text = match layout {
						0 => format!("[parse]\n{}\n{}", pair(" = ", "", "\n", false), if e == 1 { "other = 1\n" } else { extra }),
						1 => format!("[parse]\r\n{}\r\n", pair("=", "", "\r\n", true)),
						2 => format!("{}{}\n", if e == 2 { "" } else { extra }, pair(" = ", "parse.", "\n", false)),
						3 => format!("parse = {{ {} }}\n{}", pair(" = ", "", ", ", true), extra),
						_ => format!("{}\n[parse] # x\n\t{} # y\n", extra, pair(" = ", "", " # z\n", false)),
					};
					// all of the environment for the plain layout, some for the others
					let full = e == 0 && layout == 0 || thorough;
					for (x, ea) in env_actions.iter().enumerate() {
						for (y, ef) in env_flags.iter().enumerate() {
							if !full && (x > 2 || y > 2) && (x, y) != (4, 0) && (x, y) != (0, 3) {
								continue;
							}
							if !full && e > 0 && (i > 10 || j > 10) {
								continue;
							}
							judge(&mut n, &text, *ea, *ef);
						}
					}
				}
			}
		}
	}
	let combinations = n.cases;
	// Part 2: everything near valid files
	let bases = [
		"[parse]\non_parse_error = \"abort\"\nkeep_temp_files = true\n",
		"# c\nparse = { keep_temp_files = false, on_parse_error = 'skip' }\n",
		"parse.keep_temp_files = true\nparse.on_parse_error = \"serialize\"\n",
	];
	let alphabet = ['\0', '\n', '\r', '\t', ' ', '"', '#', '\'', ',', '-', '.', '0', '1', '=', 'A', 'E', '[', '\\', ']', '_', 'a', 'e', 's', '{', '}', 'é', '\u{feff}'];
	let edit = |s: &[char]| -> Vec<Vec<char>> {
		let mut r = vec![];
		for i in 0..=s.len() {
			for &c in &alphabet {
				let mut t = s.to_vec();
				t.insert(i, c);
				r.push(t);
				if i < s.len() {
					let mut t = s.to_vec();
					t[i] = c;
					r.push(t);
				}
			}
			if i < s.len() {
				let mut t = s.to_vec();
				t.remove(i);
				r.push(t);
				r.push(s[..i].to_vec());
				r.push(s[i..].to_vec());
			}
			if i + 1 < s.len() {
				let mut t = s.to_vec();
				t.swap(i, i + 1);
				r.push(t);
			}
		}
		r
	};
	for b in bases {
		let s: Vec<char> = b.chars().collect();
		for t in edit(&s) {
			let text: String = t.iter().collect();
			judge(&mut n, &text, None, None);
			judge(&mut n, &text, Some("skip"), Some("false"));
			if thorough {
				for i in 0..t.len() {
					let mut u = t.clone();
					u.remove(i);
					let text: String = u.iter().collect();
					judge(&mut n, &text, None, None);
				}
			}
		}
		// whole lines missing, doubled and in another order
		let lines: Vec<&str> = b.split_inclusive('\n').collect();
		let m = lines.len();
		for code in 0..(m + 1).pow(4) {
			let mut x = code;
			let mut text = String::new();
			for _ in 0..4 {
				if x % (m + 1) > 0 {
					text.push_str(lines[x % (m + 1) - 1]);
				}
				x /= m + 1;
			}
			judge(&mut n, &text, None, None);
		}
	}
	// Part 3: all short texts
	let tokens = ["[parse]", "\n", "on_parse_error", "keep_temp_files", "=", "\"skip\"", "true", "{", "}", ".", ",", "parse", "#", "1"];
	let depth = if thorough { 6 } else { 5 };
	for len in 0..=depth {
		let total = tokens.len().pow(len);
		for code in 0..total {
			let mut x = code;
			let mut text = String::new();
			for _ in 0..len {
				text.push_str(tokens[x % tokens.len()]);
				x /= tokens.len();
			}
			// half of a configuration before it
			judge(&mut n, &text, None, None);
			if len < depth {
				judge(&mut n, &format!("[parse]\nkeep_temp_files=true\n{text}"), None, None);
			}
		}
	}
	// what the code mentions, as values, keys and tables
	let (words, numbers) = crate::mentioned();
	let quoted = |w: &str| Value::String(w.to_string()).to_string();
	let mut all: Vec<String> = words.iter().flat_map(|w| [w.clone(), format!("{w}1"), w.to_uppercase(), format!(" {w}")]).collect();
	all.extend(numbers.iter().map(|n| n.to_string()));
	for w in &all {
		let q = quoted(w);
		judge(&mut n, &format!("[parse]\non_parse_error = {q}\nkeep_temp_files = true\n"), None, None);
		judge(&mut n, &format!("[parse]\non_parse_error = \"skip\"\nkeep_temp_files = {q}\n"), None, None);
		judge(&mut n, &format!("{q} = 1\n[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n"), None, None);
		judge(&mut n, &format!("[parse]\n{q} = true\nkeep_temp_files = true\non_parse_error = \"abort\"\n"), None, None);
		judge(&mut n, &format!("[parse]\n{q} = \"skip\"\nkeep_temp_files = true\n"), None, None);
		judge(&mut n, &format!("[parse]\n{q} = true\non_parse_error = \"skip\"\n"), None, None);
		judge(&mut n, &format!("[{q}]\non_parse_error = \"skip\"\nkeep_temp_files = true\n"), None, None);
		judge(&mut n, &format!("# {}\n[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n", w.replace(['\n', '\r', '\0'], " ")), None, None);
		judge(&mut n, w, None, None);
		if !w.contains('\0') {
			judge(&mut n, "[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n", Some(w), None);
			judge(&mut n, "[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n", None, Some(w));
		}
	}
	for n_ in numbers.iter().filter(|n| **n < 100_000) {
		for len in n_.saturating_sub(1)..=n_ + 1 {
			let pad = "#".repeat(len);
			judge(&mut n, &format!("{pad}\n[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n"), None, None);
			judge(&mut n, &format!("[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n{}", "\n".repeat(len)), None, None);
			judge(&mut n, &format!("[parse]\nx = {n_}\non_parse_error = \"skip\"\nkeep_temp_files = {len}\n"), None, None);
		}
	}
	// Part 4: variables with other names
	let mut names = 0u64;
	std::env::remove_var("SMD__PARSE__ON_PARSE_ERROR");
	std::env::remove_var("SMD__PARSE__KEEP_TEMP_FILES");
	let text = "[parse]\non_parse_error = \"skip\"\nkeep_temp_files = false\n";
	for (name, value) in [("SMD__PARSE__ON_PARSE_ERROR", "abort"), ("SMD__PARSE__KEEP_TEMP_FILES", "true")] {
		let s: Vec<char> = name.chars().collect();
		let mut others: Vec<String> = vec![];
		for i in 0..=s.len() {
			for c in ['-', '_', '.', ':', 'X', 'x', ' ', '/', '0', 'S', 'é'] {
				let mut t = s.clone();
				t.insert(i, c);
				others.push(t.iter().collect());
				if i < s.len() {
					let mut t = s.clone();
					t[i] = c;
					others.push(t.iter().collect());
				}
			}
			for k in 1..=4 {
				if i + k <= s.len() {
					let mut t = s.clone();
					t.drain(i..i + k);
					others.push(t.iter().collect());
				}
			}
			if i + 1 < s.len() {
				let mut t = s.clone();
				t.swap(i, i + 1);
				others.push(t.iter().collect());
			}
		}
		let rest = &name[5..];
		for p in ["", "SMD", "SMD_", "_", "__", "SMD-", "SMD--", "SMD.", "SMD:", "X__", "SMD__X__", "SMDX__", "APP__", "CONFIG__", "SMD_CONFIG__", "SMD_CORE__", "GFM__", "_SMD__", "RUST__"] {
			for (a, b) in [("__", "__"), ("__", "_"), ("__", "-"), ("__", "."), ("__", ""), ("_", "-")] {
				others.push(format!("{p}{}", rest.replace(a, b)));
				others.push(format!("{p}{}", rest.rsplit("__").next().unwrap().replace(a, b)));
			}
		}
		others.extend(["PARSE", "SMD", "SMD_PARSE", "ON_PARSE_ERROR", "KEEP_TEMP_FILES", "HOME_", "LANG", "PATH_", "DEBUG", "CI", "TERM", "TMPDIR", "SMD_KEEP_TEMP_FILES", "SMD_ON_PARSE_ERROR"].map(String::from));
		for w in &words {
			let w = w.trim().to_uppercase();
			others.extend([w.clone(), format!("SMD_{w}"), format!("{w}__{rest}"), format!("SMD__{w}"), format!("SMD__PARSE__{w}"), format!("{w}{rest}")]);
		}
		others.retain(|o| !o.contains(['=', '\0']) && o != "SMD__PARSE" && !o.is_empty());
		// one letter in another case is the same name to the library in use; not judged
		others.retain(|o| o.to_uppercase() != "SMD__PARSE__ON_PARSE_ERROR" && o.to_uppercase() != "SMD__PARSE__KEEP_TEMP_FILES" && !o.is_empty());
		others.sort();
		others.dedup();
		for o in others {
			if !n.shard.mine() {
				continue;
			}
			for v in [value, "x", ""] {
				std::env::set_var(&o, v);
				let got = Config::parse_from_str(text).ok().and_then(|c| read(&c).ok());
				std::env::remove_var(&o);
				names += 1;
				if got != Some(("skip".to_string(), false)) {
					fail(format!("configuration {text:?} with the unrelated environment variable {o}={v}: gives {got:?} (None: an error)"));
				}
			}
		}
	}
	n.cases += names;
	println!("N other_variables {names}");
	println!("N cases {}", n.cases);
	println!("N combinations {combinations}");
	println!("N loaded {}", n.loaded);
	println!("N rejected {}", n.errors);
	println!("N not_judged {}", n.skipped);
	println!("E");
	0
}
