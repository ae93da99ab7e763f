//! The words and numbers that occur in the renderer's source. They only choose documents to
//! look at (what the code compares with, it may treat in a special way); no verdict depends on them.

use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
	pub words: Vec<String>,
	pub chars: Vec<String>,
	pub numbers: Vec<usize>,
}

pub fn dict() -> &'static Dict {
	static D: OnceLock<Dict> = OnceLock::new();
	D.get_or_init(|| of(&["/repo/gfm/src".to_string()]))
}

/// The words and numbers of all sources below these directories.
pub fn of(dirs: &[String]) -> Dict {
	let mut files = vec![];
	for d in dirs {
		walk(std::path::Path::new(d), &mut files);
	}
	files.sort();
	let mut d = Dict::default();
	for f in files {
		scan(&std::fs::read_to_string(f).unwrap_or_default(), &mut d);
	}
	for v in [&mut d.words, &mut d.chars] {
		v.sort();
		v.dedup();
	}
	d.words.truncate(400);
	d.chars.truncate(300);
	d.numbers.sort();
	d.numbers.dedup();
	d
}

/// One entry per line: its kind and its UTF-8 in hexadecimal, or the number.
pub fn print(d: &Dict) {
	for (k, v) in [("word", &d.words), ("char", &d.chars)] {
		for w in v {
			println!("{k} {}", w.bytes().map(|b| format!("{b:02x}")).collect::<String>());
		}
	}
	for n in &d.numbers {
		println!("number {n}");
	}
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
	for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
		let p = e.path();
		if p.is_dir() {
			walk(&p, out);
		} else if p.extension().is_some_and(|x| x == "rs") {
			out.push(p);
		}
	}
}

fn word(s: &str, d: &mut Dict) {
	// formats fall into the pieces between their holes
	let mut piece = String::new();
	let mut hole = false;
	let mut pieces = vec![];
	for c in s.chars() {
		match c {
			'{' if !hole && s.contains('}') => {
				pieces.push(std::mem::take(&mut piece));
				hole = true;
			}
			'}' if hole => hole = false,
			_ if hole => {}
			_ => piece.push(c),
		}
	}
	pieces.push(piece);
	pieces.push(s.to_string());
	for p in pieces {
		let n = p.chars().count();
		if n == 1 {
			d.chars.push(p);
		} else if n > 1 && n <= 40 && p.matches(' ').count() <= 2 {
			d.words.push(p);
		}
	}
}

fn scan(src: &str, d: &mut Dict) {
	let c: Vec<char> = src.chars().collect();
	let at = |i: usize| c.get(i).copied().unwrap_or('\0');
	let mut i = 0;
	let mut last: Option<usize> = None;
	while i < c.len() {
		match c[i] {
			'/' if at(i + 1) == '/' => {
				while i < c.len() && c[i] != '\n' {
					i += 1;
				}
			}
			'/' if at(i + 1) == '*' => {
				i += 2;
				while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
					i += 1;
				}
				i += 2;
			}
			'r' if at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#') => {
				let mut n = 0;
				i += 1;
				while at(i) == '#' {
					n += 1;
					i += 1;
				}
				i += 1;
				let start = i;
				while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
					i += 1;
				}
				word(&c[start..i.min(c.len())].iter().collect::<String>(), d);
				i += n + 1;
			}
			'"' => {
				i += 1;
				let mut s = String::new();
				while i < c.len() && c[i] != '"' {
					i = escaped(&c, i, &mut s);
				}
				i += 1;
				word(&s, d);
			}
			'\'' if at(i + 1) == '\\' || at(i + 2) == '\'' => {
				let mut s = String::new();
				i = escaped(&c, i + 1, &mut s);
				i += 1;
				word(&s, d);
			}
			x if x.is_ascii_digit() => {
				let mut s = String::new();
				while at(i).is_ascii_alphanumeric() || at(i) == '_' {
					if at(i) != '_' {
						s.push(at(i));
					}
					i += 1;
				}
				let n = if let Some(h) = s.strip_prefix("0x") {
					usize::from_str_radix(h.split(['u', 'i']).next().unwrap(), 16).ok()
				} else if let Some(b) = s.strip_prefix("0b") {
					usize::from_str_radix(b.split(['u', 'i']).next().unwrap(), 2).ok()
				} else {
					s.split(['u', 'i', 'f', 'e']).next().unwrap().parse().ok()
				};
				if let Some(n) = n {
					let before: String = c[..i].iter().rev().take(24).collect::<Vec<_>>().into_iter().rev().filter(|c| !c.is_whitespace()).collect();
					if let (Some(m), true) = (last, before.contains("<<")) {
						d.numbers.push(m.checked_shl(n as u32).unwrap_or(0));
					}
					if let (Some(m), true) = (last, before.contains('*')) {
						d.numbers.push(m.saturating_mul(n));
					}
					d.numbers.push(n);
					last = Some(n);
				}
			}
			x if x.is_alphanumeric() || x == '_' => {
				let start = i;
				while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
					i += 1;
				}
				let id: String = c[start..i].iter().collect();
				if id == "MAX" {
					let before: String = c[start.saturating_sub(5)..start].iter().collect();
					for (t, n) in [("u8::", 255), ("i8::", 127), ("u16::", 65535), ("i16::", 32767)] {
						if before.ends_with(t) {
							d.numbers.push(n);
						}
					}
				}
			}
			_ => i += 1,
		}
	}
}

fn escaped(c: &[char], i: usize, s: &mut String) -> usize {
	if c[i] != '\\' {
		s.push(c[i]);
		return i + 1;
	}
	let e = c.get(i + 1).copied().unwrap_or('\0');
	match e {
		'n' => s.push('\n'),
		'r' => s.push('\r'),
		't' => s.push('\t'),
		'0' => s.push('\0'),
		'x' => {
			let h: String = c.iter().skip(i + 2).take(2).collect();
			s.extend(u8::from_str_radix(&h, 16).ok().map(|b| b as char));
			return i + 4;
		}
		'u' => {
			let h: String = c.iter().skip(i + 3).take_while(|c| **c != '}').collect();
			s.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
			return i + 4 + h.chars().count();
		}
		'\n' => {
			let mut j = i + 2;
			while c.get(j).is_some_and(|c| c.is_whitespace()) {
				j += 1;
			}
			return j;
		}
		_ => s.push(e),
	}
	i + 2
}
