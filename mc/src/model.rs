//! The reference model: what a document means, block structure first (line by
//! line), then inline structure (character by character). It shares no code
//! and no structure with the renderer, which works with one cursor over the
//! whole text and re-lexes nested content.

use crate::html::{el, el_a, text, Node};
use std::cell::Cell;

pub const MAX_DEPTH: usize = 100;
pub const MAX_QUOTE: usize = 255;

thread_local! {
	/// Productions taken, i.e. transitions of the model
	pub static STEPS: Cell<u64> = const { Cell::new(0) };
}
fn step() {
	STEPS.with(|s| s.set(s.get() + 1));
}

#[derive(Clone, Default)]
struct Ctx {
	depth: usize,
	notes: Vec<(String, usize)>,
}

#[derive(Debug)]
enum Inl {
	Ws(String),
	Br,
	Text(String),
	Styled(usize, String),
	Strike(String),
	Code(String),
	Link { href: String, text: String, title: Option<String> },
	Image { src: String, alt: String, title: Option<String> },
	/// raw text between "[^" and "]"
	Ref(String),
}

#[derive(Debug)]
enum Block {
	Blank,
	Para(Vec<Inl>),
	Head(usize, Vec<Inl>, Option<String>),
	Item(String),
	Numbered(u32, String),
	Task(bool, String),
	Quote(usize, String),
	Code(String),
	Fence(String, String),
	Rule,
	Table(Vec<&'static str>, Vec<Vec<Vec<Inl>>>),
	Details(String, String),
	Note(String, String),
}

struct Line<'a> {
	text: &'a str,
	newline: bool,
}

pub fn render(source: &str) -> Vec<Node> {
	let source = source.replace("\r\n", "\n").replace('\r', "\n");
	document(&source, &Ctx::default())
}

fn is_blank(line: &str) -> bool {
	line.bytes().all(|b| b == b' ' || b == b'\t')
}

fn columns_from(start: usize, ws: &str) -> usize {
	let mut col = start;
	for c in ws.chars() {
		col = if c == '\t' { (col / 4 + 1) * 4 } else { col + 1 };
	}
	col
}

fn split_ws(line: &str) -> (&str, &str) {
	let n = line.len() - line.trim_start_matches([' ', '\t']).len();
	line.split_at(n)
}

fn indent(line: &str) -> usize {
	columns_from(0, split_ws(line).0)
}

/// The line without `count` columns of indentation, if it starts at `start`.
fn unindent(line: &str, start: usize, count: usize) -> String {
	let (ws, rest) = split_ws(line);
	let target = start + count;
	// How much of the whitespace is needed to get to the target column
	let mut taken = 0;
	while taken < ws.len() && columns_from(start, &ws[..taken]) < target {
		taken += 1;
	}
	let column = columns_from(start, &ws[..taken]);
	let end = columns_from(start, ws);
	if column <= target && column % 4 == 0 {
		return line[taken..].to_string();
	}
	" ".repeat(end.saturating_sub(target)) + rest
}

/// Text with its backslash escapes resolved.
fn unescape(raw: &str) -> String {
	let mut out = String::new();
	let mut it = raw.chars().peekable();
	while let Some(c) = it.next() {
		if c == '\\' && it.peek().is_some_and(|n| n.is_ascii_punctuation()) {
			out.push(it.next().unwrap());
		} else {
			out.push(c);
		}
	}
	out
}

// ---- line classification -------------------------------------------------

/// The text of a line that a block may start on.
fn block_text(line: &str) -> Option<&str> {
	let t = line.trim_start_matches(' ');
	(line.len() - t.len() <= 3).then_some(t)
}

fn after_marker(rest: &str) -> bool {
	rest.is_empty() || rest.starts_with([' ', '\t'])
}

fn heading_level(t: &str) -> Option<usize> {
	let n = t.bytes().take_while(|&b| b == b'#').count();
	((1..=6).contains(&n) && after_marker(&t[n..])).then_some(n)
}

fn is_rule(t: &str) -> bool {
	let Some(m) = t.chars().next().filter(|c| "*-_".contains(*c)) else { return false };
	t.chars().filter(|&c| c == m).count() >= 3
		&& t.chars().all(|c| c == m || c == ' ' || c == '\t')
}

fn is_bullet(t: &str) -> bool {
	t.starts_with(['-', '+', '*']) && after_marker(&t[1..])
}

fn number(t: &str) -> Option<(&str, &str)> {
	let n = t.bytes().take_while(|b| b.is_ascii_digit()).count();
	let rest = t[n..].strip_prefix('.')?;
	((1..=9).contains(&n) && after_marker(rest)).then_some((&t[..n], rest))
}

fn fence(t: &str) -> Option<(usize, &str)> {
	let n = t.bytes().take_while(|&b| b == b'`').count();
	(n >= 3 && !t[n..].contains('`')).then_some((n, &t[n..]))
}

/// `[^id]:` and what follows it
fn note(t: &str) -> Option<(&str, &str)> {
	let body = t.strip_prefix("[^")?;
	let mut escaped = false;
	for (i, c) in body.char_indices() {
		if escaped {
			escaped = false;
			continue;
		}
		match c {
			'\\' => escaped = true,
			'[' => return None,
			']' => {
				let id = &body[..i];
				let rest = body[i + 1..].strip_prefix(':')?;
				let bad = id.is_empty() || id.contains(char::is_whitespace);
				return (!bad).then_some((id, rest));
			}
			_ => {}
		}
	}
	None
}

fn summary(line: &str) -> Option<&str> {
	line.strip_prefix("<summary>")?.strip_suffix("</summary>")
}

/// Whether line `i` starts a block that ends a paragraph.
fn interrupts(lines: &[Line], i: usize) -> bool {
	let Some(t) = block_text(lines[i].text) else { return false };
	heading_level(t).is_some()
		|| is_rule(t)
		|| is_bullet(t)
		|| number(t).is_some_and(|n| n.0 == "1")
		|| t.starts_with('>')
		|| fence(t).is_some()
		|| note(t).is_some()
		|| is_details(lines, i, t)
}

fn is_details(lines: &[Line], i: usize, t: &str) -> bool {
	t == "<details>"
		&& lines[i].newline
		&& lines.get(i + 1).is_some_and(|l| summary(l.text).is_some())
}

/// Lines that look like the start of a block but are text: inline constructs
/// do not reach over them.
fn looks_like_block(line: &str) -> bool {
	let Some(t) = block_text(line) else { return false };
	t == "<details>"
		|| t.strip_prefix("[^").is_some_and(|r| {
			r.split_once("]:").is_some_and(|(id, _)| {
				!id.is_empty() && !id.contains(|c: char| c.is_whitespace() || c == ']')
			})
		})
}

fn cells(row: &str) -> Vec<&str> {
	let mut out = vec![];
	let mut from = 0;
	let mut backslashes = 0;
	for (i, b) in row.bytes().enumerate() {
		if b == b'|' && backslashes % 2 == 0 {
			out.push(row[from..i].trim());
			from = i + 1;
		}
		backslashes = if b == b'\\' { backslashes + 1 } else { 0 };
	}
	let tail = row[from..].trim();
	if !tail.is_empty() || out.is_empty() {
		out.push(tail);
	}
	out
}

fn alignment(cell: &str) -> Option<&'static str> {
	let left = cell.starts_with(':');
	let inner = cell.strip_prefix(':').unwrap_or(cell);
	let right = inner.ends_with(':');
	let inner = inner.strip_suffix(':').unwrap_or(inner);
	if inner.is_empty() || inner.bytes().any(|b| b != b'-') {
		return None;
	}
	Some(match (left, right) {
		(true, true) => "center",
		(false, true) => "right",
		_ => "left",
	})
}

/// The table that starts on line `i`, and how many lines it takes.
fn table<'a>(lines: &[Line<'a>], i: usize) -> Option<(Vec<&'static str>, Vec<Vec<&'a str>>, usize)> {
	let first = block_text(lines[i].text)?.strip_prefix('|')?;
	let mut rows = vec![cells(first)];
	for l in &lines[i + 1..] {
		match l.text.strip_prefix('|') {
			Some(r) => rows.push(cells(r)),
			None => break,
		}
	}
	let count = rows.len();
	if count < 3 || rows.iter().any(|r| r.len() != rows[0].len()) {
		return None;
	}
	let align: Option<Vec<_>> = rows[1].iter().map(|c| alignment(c)).collect();
	let align = align?;
	rows.remove(1);
	Some((align, rows, count))
}

// ---- links ---------------------------------------------------------------

struct Target {
	href: String,
	shown: String,
	has_scheme: bool,
}

fn percent(s: &str) -> String {
	s.chars()
		.map(|c| {
			if "[]!$'()* \\\"<>".contains(c) {
				format!("%{:02X}", c as u32)
			} else {
				c.to_string()
			}
		})
		.collect()
}

fn target(raw: &str) -> Option<Target> {
	if raw.chars().any(|c| !c.is_ascii_graphic()) {
		return None;
	}
	let (name, after) = match raw.split_once(':') {
		Some((n, a)) => (n, Some(a)),
		None => ("", None),
	};
	let scheme_like = !name.is_empty()
		&& name.chars().all(|c| c.is_ascii_alphanumeric() || "+.-".contains(c));
	let lower = name.to_ascii_lowercase();
	if lower == "javascript" || (lower == "data" && !after.unwrap().starts_with("image/")) {
		return None;
	}
	if scheme_like && !(2..=32).contains(&name.len()) {
		return None;
	}
	let at = raw.matches('@').count() == 1;
	if at && !raw.contains('\\') && !scheme_like && !raw.contains(['/', '#', '?']) {
		return Some(Target {
			href: format!("mailto:{}", percent(raw)),
			shown: raw.into(),
			has_scheme: true,
		});
	}
	if at && raw.contains('\\') {
		return None;
	}
	if scheme_like {
		let rest = after.unwrap();
		return Some(Target {
			href: format!("{}:{}", name, percent(rest)),
			shown: if name == "mailto" { rest.into() } else { raw.into() },
			has_scheme: true,
		});
	}
	Some(Target { href: percent(raw), shown: raw.into(), has_scheme: false })
}

// ---- inline --------------------------------------------------------------

struct Scan {
	s: Vec<char>,
	/// Newlines that no construct reaches over
	barriers: Vec<usize>,
	/// The first line starts at the start of a line of the document
	line_start: bool,
	/// Blocks and notes are possible here (not in headings and cells)
	block: bool,
}

fn string(s: &[char]) -> String {
	s.iter().collect()
}

impl Scan {
	fn limit(&self, pos: usize) -> usize {
		self.barriers.iter().copied().find(|&b| b >= pos).unwrap_or(self.s.len())
	}

	/// First of the `stop` characters from `pos` on that is not escaped.
	fn find(&self, pos: usize, stop: &[char]) -> Option<usize> {
		let limit = self.limit(pos);
		let mut i = pos;
		while i < limit {
			if stop.contains(&self.s[i]) {
				return Some(i);
			}
			i += if self.s[i] == '\\' && i + 1 < self.s.len() && self.s[i + 1] != '\n' { 2 } else { 1 };
		}
		None
	}

	fn run(&self, pos: usize) -> usize {
		self.s[pos..].iter().take_while(|&&c| c == self.s[pos]).count()
	}

	/// The line that starts (after at most three spaces) at `pos`
	fn starts_line(&self, pos: usize) -> Option<usize> {
		if !self.block {
			return None;
		}
		let mut i = pos;
		while i > 0 && self.s[i - 1] == ' ' {
			i -= 1;
		}
		if pos - i > 3 || (i == 0 && !self.line_start) || (i > 0 && self.s[i - 1] != '\n') {
			return None;
		}
		Some(self.s[..i].iter().filter(|&&c| c == '\n').count())
	}

	fn link(&self, open: usize) -> Option<(Inl, usize)> {
		let close = self.find(open + 1, &['[', ']']).filter(|&c| self.s[c] == ']')?;
		let shown = unescape(&string(&self.s[open + 1..close]));
		if self.s.get(close + 1) != Some(&'(') {
			return None;
		}
		let from = close + 2;
		let mut i = from;
		while i < self.s.len() && !matches!(self.s[i], ')' | ' ' | '\n') {
			i += 1;
		}
		let dest = string(&self.s[from..i]);
		let mut title = None;
		match self.s.get(i) {
			Some(')') => {}
			Some(' ') => {
				while self.s.get(i) == Some(&' ') {
					i += 1;
				}
				let quote = *self.s.get(i).filter(|c| matches!(c, '"' | '\''))?;
				let end = self.find(i + 1, &[quote])?;
				title = Some(unescape(&string(&self.s[i + 1..end])));
				i = end + 1;
				while self.s.get(i) == Some(&' ') {
					i += 1;
				}
				if self.s.get(i) != Some(&')') {
					return None;
				}
			}
			_ => return None,
		}
		let t = target(&dest)?;
		Some((Inl::Link { href: t.href, text: shown, title }, i + 1))
	}

	/// Scans from `pos` until the end or a table, which `is_table` recognises
	/// by its line.
	fn scan(&self, is_table: &dyn Fn(usize) -> bool) -> (Vec<Inl>, Option<usize>) {
		let mut out: Vec<Inl> = vec![];
		let mut pos = 0;
		let n = self.s.len();
		while pos < n {
			step();
			let c = self.s[pos];
			let next = self.s.get(pos + 1).copied();
			match c {
				'\n' => {
					out.push(Inl::Ws("\n".into()));
					pos += 1;
				}
				' ' | '\t' => {
					let mut end = pos;
					while end < n && matches!(self.s[end], ' ' | '\t') {
						end += 1;
					}
					let at_start = self.starts_line(pos).is_some();
					let started = out.iter().any(|i| !matches!(i, Inl::Ws(_)));
					if self.s.get(end) == Some(&'\n')
						&& end - pos >= 2 && !at_start
						&& started && self.s[pos..end].iter().all(|&c| c == ' ')
					{
						out.push(Inl::Br);
					} else {
						out.push(Inl::Ws(string(&self.s[pos..end])));
					}
					pos = end;
				}
				'\\' => match next {
					Some('#') => {
						let k = self.run(pos + 1);
						out.push(Inl::Text("#".repeat(k)));
						pos += 1 + k;
					}
					Some('\n') if self.limit(pos) != pos + 1 => {
						out.push(Inl::Br);
						pos += 1;
					}
					Some(p) if p.is_ascii_punctuation() => {
						out.push(Inl::Text(p.to_string()));
						pos += 2;
					}
					_ => {
						out.push(Inl::Text("\\".into()));
						pos += 1;
					}
				},
				'*' | '_' => {
					let k = self.run(pos);
					let from = pos + k;
					let hit = self.find(from, &[c]).filter(|_| k <= 3).and_then(|end| {
						let body = &self.s[from..end];
						if body.is_empty()
							|| body[0].is_whitespace()
							|| body[body.len() - 1].is_whitespace()
							|| self.run(end) < k
						{
							return None;
						}
						let word = |c: Option<&char>| c.is_some_and(|c| c.is_alphanumeric());
						let before = pos.checked_sub(1).and_then(|i| self.s.get(i));
						if c == '_' && (word(before) || word(self.s.get(end + k))) {
							return None;
						}
						Some((Inl::Styled(k, unescape(&string(body))), end + k))
					});
					match hit {
						Some((i, end)) => {
							out.push(i);
							pos = end;
						}
						None => {
							out.push(Inl::Text(string(&self.s[pos..from])));
							pos = from;
						}
					}
				}
				'~' => {
					let k = self.run(pos);
					let from = pos + k;
					let hit = self.find(from, &['~']).filter(|&e| k == 2 && self.run(e) == 2).filter(|&e| {
						let b = &self.s[from..e];
						!b.is_empty() && !b[0].is_whitespace() && !b[b.len() - 1].is_whitespace()
					});
					match hit {
						Some(e) => {
							out.push(Inl::Strike(unescape(&string(&self.s[from..e]))));
							pos = e + 2;
						}
						None => {
							out.push(Inl::Text("~".repeat(k)));
							pos = from;
						}
					}
				}
				'`' => {
					let k = self.run(pos);
					let from = pos + k;
					let limit = self.limit(pos);
					let mut i = from;
					let mut hit = None;
					while i < limit {
						if self.s[i] != '`' {
							i += 1;
							continue;
						}
						let r = self.run(i);
						if r == k {
							hit = Some(i);
							break;
						}
						i += r;
					}
					match hit {
						Some(e) => {
							let body = string(&self.s[from..e]).replace('\n', " ");
							let padded = body.len() >= 2
								&& body.starts_with(' ')
								&& body.ends_with(' ')
								&& !body.trim().is_empty();
							let body = if padded { &body[1..body.len() - 1] } else { &body };
							out.push(Inl::Code(body.to_string()));
							pos = e + k;
						}
						None => {
							out.push(Inl::Text("`".repeat(k)));
							pos = from;
						}
					}
				}
				'[' => {
					if let Some((i, end)) = self.link(pos) {
						out.push(i);
						pos = end;
						continue;
					}
					let close = self.find(pos + 1, &['[', ']']).filter(|&e| self.s[e] == ']');
					match close {
						Some(e)
							if next == Some('^')
								&& self.s.get(e + 1) != Some(&'(')
								&& !(self.s.get(e + 1) == Some(&':')
									&& self.starts_line(pos).is_some()) =>
						{
							out.push(Inl::Ref(string(&self.s[pos + 2..e])));
							pos = e + 1;
						}
						_ => {
							out.push(Inl::Text("[".into()));
							pos += 1;
						}
					}
				}
				'!' => match (next == Some('[')).then(|| self.link(pos + 1)).flatten() {
					Some((Inl::Link { href, text, title }, end)) => {
						let src = if href.is_empty() { "data:,".into() } else { href };
						out.push(Inl::Image { src, alt: text, title });
						pos = end;
					}
					_ => {
						out.push(Inl::Text("!".into()));
						pos += 1;
					}
				},
				'<' => {
					let mut e = pos + 1;
					while e < n && !matches!(self.s[e], '<' | '>') && !self.s[e].is_whitespace() {
						e += 1;
					}
					let raw = string(&self.s[pos + 1..e]);
					let t = (self.s.get(e) == Some(&'>') && !raw.is_empty())
						.then(|| target(&raw))
						.flatten()
						.filter(|t| t.has_scheme);
					match t {
						Some(t) => {
							out.push(Inl::Link { href: t.href, text: t.shown, title: None });
							pos = e + 1;
						}
						None => {
							out.push(Inl::Text("<".into()));
							pos += 1;
						}
					}
				}
				'|' => {
					if let Some(line) = self.starts_line(pos).filter(|&l| is_table(l)) {
						return (out, Some(line));
					}
					out.push(Inl::Text("|".into()));
					pos += 1;
				}
				c if c.is_whitespace() => {
					out.push(Inl::Ws(c.to_string()));
					pos += 1;
				}
				c => {
					out.push(Inl::Text(c.to_string()));
					pos += 1;
				}
			}
		}
		(out, None)
	}
}

fn inline_line(s: &str) -> Vec<Inl> {
	let scan = Scan { s: s.chars().collect(), barriers: vec![], line_start: false, block: false };
	scan.scan(&|_| false).0
}

// ---- blocks --------------------------------------------------------------

fn item_content(lines: &[Line], i: usize, rest: &str, start: usize) -> (String, usize) {
	let nl = |l: &Line| if l.newline { "\n" } else { "" };
	let mut content = unindent(rest, start, 1) + nl(&lines[i]);
	let mut next = i + 1;
	let mut j = i + 1;
	let mut blanks = 0;
	while j < lines.len() {
		let l = &lines[j];
		if is_blank(l.text) {
			blanks += 1;
		} else if indent(l.text) > start {
			content += &"\n".repeat(blanks);
			blanks = 0;
			content += &(unindent(l.text, 0, start + 1) + nl(l));
			next = j + 1;
		} else {
			break;
		}
		j += 1;
	}
	(content, next)
}

fn blocks(source: &str) -> Vec<Block> {
	let lines: Vec<Line> = source
		.split_inclusive('\n')
		.map(|l| match l.strip_suffix('\n') {
			Some(t) => Line { text: t, newline: true },
			None => Line { text: l, newline: false },
		})
		.collect();
	let mut out = vec![];
	let mut i = 0;
	// What is left of line i after a closing details tag
	let mut tail: Option<&str> = None;
	while i < lines.len() {
		step();
		let line = tail.unwrap_or(lines[i].text);
		if is_blank(line) {
			// The end of the details line itself is no blank line
			if tail.is_none() {
				out.push(Block::Blank);
			}
			tail = None;
			i += 1;
			continue;
		}
		let in_line = tail.take().is_some();
		if !in_line && indent(line) >= 4 {
			let mut code = String::new();
			let mut blanks = 0;
			let mut j = i;
			while j < lines.len() {
				if is_blank(lines[j].text) {
					blanks += 1;
				} else if indent(lines[j].text) >= 4 {
					code += &"\n".repeat(blanks);
					blanks = 0;
					code += &unindent(lines[j].text, 0, 4);
					code.push('\n');
					i = j + 1;
				} else {
					break;
				}
				j += 1;
			}
			out.push(Block::Code(code));
			continue;
		}
		let t = if in_line { "" } else { line.trim_start_matches(' ') };
		let k = line.len() - t.len();
		if let Some(level) = heading_level(t) {
			out.push(heading(level, t));
			i += 1;
		} else if is_rule(t) {
			out.push(Block::Rule);
			i += 1;
		} else if is_bullet(t) {
			let (content, next) = item_content(&lines, i, &t[1..], k + 1);
			i = next;
			let boxed = |b: &str| content.strip_prefix(b).map(str::to_string);
			out.push(if let Some(c) = boxed("[ ] ") {
				Block::Task(false, c)
			} else if let Some(c) = boxed("[x] ").or(boxed("[X] ")) {
				Block::Task(true, c)
			} else {
				Block::Item(content)
			});
		} else if let Some((digits, rest)) = number(t) {
			let (content, next) = item_content(&lines, i, rest, k + digits.len() + 1);
			i = next;
			out.push(Block::Numbered(digits.parse().unwrap(), content));
		} else if t.starts_with('>') {
			let level = t.bytes().take_while(|&b| b == b'>').count();
			let mut body = String::new();
			let mut first = true;
			while let Some(l) = lines.get(i) {
				let Some(q) = block_text(l.text) else { break };
				let arrows = q.bytes().take_while(|&b| b == b'>').count();
				if arrows != level {
					break;
				}
				let column = if first { arrows } else { l.text.len() - q.len() + arrows };
				first = false;
				body += &unindent(&q[arrows..], column, 1);
				if l.newline {
					body.push('\n');
				}
				i += 1;
			}
			out.push(Block::Quote(level.min(MAX_QUOTE), body));
		} else if let Some((ticks, info)) = fence(t) {
			let lang = info.split_whitespace().next().unwrap_or("").to_string();
			let mut body = String::new();
			i += 1;
			while let Some(l) = lines.get(i) {
				i += 1;
				let f = l.text.trim();
				if indent(l.text) < 4 && f.len() >= ticks && f.bytes().all(|b| b == b'`') {
					break;
				}
				body += &unindent(l.text, 0, k);
				if l.newline {
					body.push('\n');
				}
			}
			out.push(Block::Fence(body, lang));
		} else if let Some((id, rest)) = note(t) {
			let mut body = rest.to_string();
			i += 1;
			while let Some(l) = lines.get(i) {
				if l.text.trim().is_empty() || indent(l.text) < 2 {
					break;
				}
				body.push('\n');
				body += l.text;
				i += 1;
			}
			out.push(Block::Note(id.to_string(), body.trim().to_string()));
		} else if is_details(&lines, i, t) {
			let sum = summary(lines[i + 1].text).unwrap().to_string();
			// Everything up to the closing tag that balances the opening one
			let rest_from: usize = lines[..i + 1].iter().map(|l| l.text.len() + 1).sum::<usize>()
				+ lines[i + 1].text.len();
			let rest = &source[rest_from..];
			let mut open = 1;
			let mut at = 0;
			let mut end = None;
			while at < rest.len() {
				let r = &rest[at..];
				if r.starts_with("<details>") {
					open += 1;
					at += 9;
				} else if r.starts_with("</details>") {
					open -= 1;
					if open == 0 {
						end = Some(at);
						break;
					}
					at += 10;
				} else {
					at += r.chars().next().unwrap().len_utf8();
				}
			}
			// An unterminated section ends with the document, even when that
			// ends with the closing tag of something else
			let body = match end {
				Some(e) => &rest[..e],
				None => rest.strip_suffix("</details>").unwrap_or(rest),
			};
			out.push(Block::Details(sum, body.to_string()));
			match end {
				None => i = lines.len(),
				Some(e) => {
					let after = rest_from + e + 10;
					i = source[..after].matches('\n').count();
					let from = source[..after].rfind('\n').map_or(0, |p| p + 1);
					tail = Some(&lines[i].text[after - from..]);
				}
			}
		} else if let Some((align, rows, count)) = (!in_line).then(|| table(&lines, i)).flatten() {
			let rows = rows.into_iter().map(|r| r.into_iter().map(inline_line).collect()).collect();
			out.push(Block::Table(align, rows));
			i += count;
		} else {
			let mut s: Vec<char> = line.chars().collect();
			let mut barriers = vec![];
			let mut j = i + 1;
			while j < lines.len() && !is_blank(lines[j].text) && !interrupts(&lines, j) {
				if looks_like_block(lines[j].text) {
					barriers.push(s.len());
				}
				s.push('\n');
				s.extend(lines[j].text.chars());
				j += 1;
			}
			let scan = Scan { s, barriers, line_start: !in_line, block: true };
			let (inl, stop) = scan.scan(&|l| table(&lines, i + l).is_some());
			out.push(Block::Para(inl));
			i = stop.map_or(j, |l| i + l);
		}
	}
	out
}

fn heading(level: usize, t: &str) -> Block {
	let mut line = &t[level..];
	line = line.strip_prefix([' ', '\t']).unwrap_or(line);
	let mut label = None;
	let trimmed = line.trim_end();
	if trimmed.ends_with('}') {
		if let Some(p) = trimmed.rfind("{#") {
			label = Some(unescape(&trimmed[p + 2..trimmed.len() - 1].replace(' ', "-")));
			line = &line[..p];
		}
	}
	// A closing sequence stands alone or after a blank
	let mut body = line.trim_end();
	let hashes = body.len() - body.trim_end_matches('#').len();
	let before = &body[..body.len() - hashes];
	if hashes > 0 && (before.is_empty() || before.ends_with([' ', '\t'])) {
		body = before;
	} else {
		body = line;
	}
	Block::Head(level, inline_line(body.trim_end_matches([' ', '\t'])), label)
}

// ---- output --------------------------------------------------------------

fn inline_nodes(inl: &[Inl], ctx: &Ctx) -> Vec<Node> {
	let mut out: Vec<Node> = vec![];
	let mut pending: Vec<Node> = vec![];
	let mut breaking = false;
	let mut started = false;
	for i in inl {
		match i {
			Inl::Ws(w) => {
				if started && !breaking {
					pending.push(text(w.as_str()));
				}
				continue;
			}
			Inl::Br => {
				out.append(&mut pending);
				started = true;
				breaking = true;
				pending = vec![el("br", vec![])];
				continue;
			}
			_ => {}
		}
		out.append(&mut pending);
		started = true;
		breaking = false;
		out.push(match i {
			Inl::Text(t) => text(t.as_str()),
			Inl::Styled(1, t) => el("em", vec![text(t.as_str())]),
			Inl::Styled(2, t) => el("strong", vec![text(t.as_str())]),
			Inl::Styled(_, t) => el("strong", vec![el("em", vec![text(t.as_str())])]),
			Inl::Strike(t) => el("strike", vec![text(t.as_str())]),
			Inl::Code(t) => el("code", vec![text(t.as_str())]),
			Inl::Link { href, text: t, title } => {
				let mut attrs = vec![("href", href.as_str())];
				if let Some(t) = title {
					attrs.push(("title", t));
				}
				el_a("a", &attrs, vec![text(t.as_str())])
			}
			Inl::Image { src, alt, title } => {
				let mut attrs = vec![("src", src.as_str()), ("alt", alt)];
				if let Some(t) = title {
					attrs.push(("title", t));
				}
				el_a("img", &attrs, vec![])
			}
			Inl::Ref(id) => match ctx.notes.iter().find(|n| n.0 == *id) {
				Some((_, number)) => {
					let id = unescape(id);
					el_a(
						"sup",
						&[("id", &format!("fnref:{id}"))],
						vec![el_a(
							"a",
							&[("href", &format!("#fn:{id}"))],
							vec![text(number.to_string())],
						)],
					)
				}
				None => text(unescape(&format!("[^{id}]"))),
			},
			Inl::Ws(_) | Inl::Br => unreachable!(),
		});
	}
	out
}

fn append(open: &mut Vec<Node>, out: &mut Vec<Node>, depth: usize) {
	while open.len() > depth {
		let done = open.pop().unwrap();
		match open.last_mut() {
			Some(Node::El(e)) => e.kids.push(done),
			_ => out.push(done),
		}
	}
}

fn document(source: &str, ctx: &Ctx) -> Vec<Node> {
	if ctx.depth > MAX_DEPTH {
		return vec![el("p", vec![text(unescape(source))])];
	}
	let blocks = blocks(source);
	let mut ctx = ctx.clone();
	let own: Vec<_> = blocks
		.iter()
		.filter_map(|b| match b {
			Block::Note(id, _) => Some(id.clone()),
			_ => None,
		})
		.zip(1..)
		.collect();
	ctx.notes.splice(0..0, own);
	let inner = Ctx { depth: ctx.depth + 1, notes: ctx.notes.clone() };

	let mut out: Vec<Node> = vec![];
	// Open quotes from the outside in, or one open list
	let mut quotes: Vec<Node> = vec![];
	let mut list: Option<(&'static str, Node)> = None;
	let mut notes = vec![];
	for b in &blocks {
		step();
		let kind = match b {
			Block::Item(_) => "item",
			Block::Numbered(..) => "number",
			Block::Task(..) => "task",
			_ => "",
		};
		if matches!(b, Block::Para(p) if p.iter().all(|i| matches!(i, Inl::Ws(_)))) {
			continue;
		}
		if !matches!(b, Block::Blank) && list.as_ref().is_some_and(|l| l.0 != kind) {
			out.push(list.take().unwrap().1);
		}
		if !matches!(b, Block::Quote(..)) {
			append(&mut quotes, &mut out, 0);
		}
		let item = match b {
			Block::Blank => continue,
			Block::Para(inl) => {
				out.push(el("p", inline_nodes(inl, &ctx)));
				continue;
			}
			Block::Head(level, inl, label) => {
				let h = format!("h{level}");
				out.push(match label {
					Some(l) => el_a(&h, &[("id", l)], inline_nodes(inl, &ctx)),
					None => el(&h, inline_nodes(inl, &ctx)),
				});
				continue;
			}
			Block::Quote(level, body) => {
				append(&mut quotes, &mut out, *level);
				while quotes.len() < *level {
					quotes.push(el("blockquote", vec![]));
				}
				if let (Some(Node::El(q)), false) = (quotes.last_mut(), body.trim().is_empty()) {
					q.kids.extend(document(body, &inner));
				}
				continue;
			}
			Block::Code(code) => {
				out.push(el("pre", vec![el("code", vec![text(code.as_str())])]));
				continue;
			}
			Block::Fence(code, lang) => {
				let class = format!("language-{}", unescape(lang));
				let code = vec![text(code.as_str())];
				out.push(el(
					"pre",
					vec![if lang.is_empty() {
						el("code", code)
					} else {
						el_a("code", &[("class", &class)], code)
					}],
				));
				continue;
			}
			Block::Rule => {
				out.push(el("hr", vec![]));
				continue;
			}
			Block::Table(align, rows) => {
				let row = |tag: &str, cells: &[Vec<Inl>]| {
					el(
						"tr",
						cells
							.iter()
							.zip(align)
							.map(|(c, a)| {
								el_a(
									tag,
									&[("style", &format!("text-align: {a}"))],
									inline_nodes(c, &ctx),
								)
							})
							.collect(),
					)
				};
				out.push(el(
					"table",
					vec![
						el("thead", vec![row("th", &rows[0])]),
						el("tbody", rows[1..].iter().map(|r| row("td", r)).collect()),
					],
				));
				continue;
			}
			Block::Details(sum, body) => {
				let mut kids = vec![el("summary", vec![text(unescape(sum))])];
				kids.extend(document(body, &inner));
				out.push(el("details", kids));
				continue;
			}
			Block::Note(id, body) => {
				notes.push((id, body));
				continue;
			}
			Block::Item(body) => el("li", document(body, &inner)),
			Block::Numbered(_, body) => el("li", document(body, &inner)),
			Block::Task(checked, body) => {
				let mut kids = vec![if *checked {
					el_a("input", &[("checked", "")], vec![])
				} else {
					el("input", vec![])
				}];
				kids.extend(document(body, &inner));
				el("li", kids)
			}
		};
		match &mut list {
			Some((_, Node::El(l))) => l.kids.push(item),
			_ => {
				let l = match b {
					Block::Numbered(1, _) => el("ol", vec![item]),
					Block::Numbered(n, _) => el_a("ol", &[("start", &n.to_string())], vec![item]),
					_ => el("ul", vec![item]),
				};
				list = Some((kind, l));
			}
		}
	}
	if let Some((_, l)) = list {
		out.push(l);
	}
	append(&mut quotes, &mut out, 0);
	if !notes.is_empty() {
		let items = notes
			.into_iter()
			.map(|(id, body)| {
				let id = unescape(id);
				el_a(
					"li",
					&[("id", &format!("fn:{id}"))],
					vec![el(
						"p",
						vec![
							text(unescape(body)),
							el_a("a", &[("href", &format!("#fnref:{id}"))], vec![text("↩")]),
						],
					)],
				)
			})
			.collect();
		out.push(el("div", vec![el("ol", items)]));
	}
	out
}
