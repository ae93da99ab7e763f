//! What must hold for every document that is explored.

use crate::html::{self, Node};
use crate::model;
use crate::runner::{hash, Ok_, Oracle};

pub fn render(s: &str) -> String {
	gfm::Parser::render(s)
}

fn read(input: &str) -> Result<(String, Vec<Node>), String> {
	let out = render(input);
	let nodes = html::parse(&out).map_err(|e| format!("{e}; html {out:?}"))?;
	Ok((out, nodes))
}

fn show(c: &str) -> String {
	c.replace('\u{1}', "\"").replace('\u{2}', "\\")
}

pub fn model_check(input: &str) -> Result<Ok_, String> {
	let (_, nodes) = read(input)?;
	let got = html::canon(&nodes);
	let want = html::canon(&model::render(input));
	if got != want {
		return Err(format!("expected {}\n     got {}", show(&want), show(&got)));
	}
	Ok(Ok_ { key: (!input.trim().is_empty()).then(|| hash(&got)) })
}

/// Agreement with the reference model.
pub fn model() -> Oracle {
	Box::new(model_check)
}

/// Rendering returns at all, with everything that it logs evaluated.
pub fn total() -> Oracle {
	struct Sink;
	impl std::fmt::Write for Sink {
		fn write_str(&mut self, _: &str) -> std::fmt::Result {
			Ok(())
		}
	}
	struct Evaluate;
	impl log::Log for Evaluate {
		fn enabled(&self, _: &log::Metadata) -> bool {
			true
		}
		fn log(&self, r: &log::Record) {
			let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
		}
		fn flush(&self) {}
	}
	static LOG: Evaluate = Evaluate;
	let _ = log::set_logger(&LOG);
	log::set_max_level(log::LevelFilter::Trace);
	Box::new(|i| Ok(Ok_ { key: Some(hash(&render(i))) }))
}

/// Which text (letters and digits only) is in which block.
pub fn skeleton() -> Oracle {
	fn walk(nodes: &[Node], out: &mut String) {
		for n in nodes {
			match n {
				Node::Text(t) => out.extend(t.chars().filter(|c| c.is_alphanumeric())),
				Node::El(e) => {
					let inline = matches!(e.tag.as_str(), "em" | "strong" | "del" | "strike" | "a" | "code" | "img" | "br" | "input" | "sup");
					if !inline {
						out.push_str(&format!("<{}>", e.tag));
					}
					walk(&e.kids, out);
					if !inline {
						out.push_str("</>");
					}
				}
			}
		}
	}
	Box::new(|i| {
		let (out, nodes) = read(i)?;
		let (mut got, mut want) = (String::new(), String::new());
		walk(&nodes, &mut got);
		walk(&model::render(i), &mut want);
		if got != want {
			return Err(format!("expected {want}\n     got {got}; html {out:?}"));
		}
		Ok(Ok_ { key: (!got.is_empty()).then(|| hash(&got)) })
	})
}

/// Only elements and attributes of Markdown constructs.
pub fn safe() -> Oracle {
	Box::new(|i| {
		let (out, nodes) = read(i)?;
		html::check_allowed(&nodes).map_err(|e| format!("{e}; html {out:?}"))?;
		Ok(Ok_ {
			key: i.contains(['<', '>', '&', '"', '\'']).then(|| hash(&out)),
		})
	})
}

/// Properly nested, and every element where it belongs.
pub fn well_formed() -> Oracle {
	Box::new(|i| {
		let (out, nodes) = read(i)?;
		html::check_content("", &nodes).map_err(|e| format!("{e}; html {out:?}"))?;
		let mut shape = String::new();
		html::each_el(&nodes, &mut |e| {
			shape.push_str(&e.tag);
			shape.push(' ');
		});
		Ok(Ok_ { key: (!shape.is_empty()).then(|| hash(&shape)) })
	})
}

/// The scheme a browser sees in a URL attribute.
fn browser_scheme(url: &str) -> Option<(String, String)> {
	let u: String = url
		.trim_matches(|c: char| c <= ' ')
		.chars()
		.filter(|c| !matches!(c, '\t' | '\n' | '\r'))
		.collect();
	let (s, rest) = u.split_once(':')?;
	let ok = s.starts_with(|c: char| c.is_ascii_alphabetic())
		&& s.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c));
	ok.then(|| (s.to_ascii_lowercase(), rest.to_string()))
}

pub fn url_problem(nodes: &[Node]) -> Option<String> {
	let mut bad = None;
	html::each_el(nodes, &mut |e| {
		for (name, value) in &e.attrs {
			if !matches!(name.as_str(), "href" | "src") {
				continue;
			}
			let Some((scheme, rest)) = browser_scheme(value) else { continue };
			let runs = match scheme.as_str() {
				"javascript" | "vbscript" => scheme == "javascript",
				"data" => {
					let empty_image = e.tag == "img" && rest == ",";
					!empty_image && !rest.to_ascii_lowercase().starts_with("image/")
				}
				_ => false,
			};
			if runs {
				bad = Some(format!("<{} {}={:?}>", e.tag, name, value));
			}
		}
	});
	bad
}

/// No target that runs code.
pub fn safe_urls() -> Oracle {
	Box::new(|i| {
		let (out, nodes) = read(i)?;
		if let Some(b) = url_problem(&nodes) {
			return Err(format!("{b} runs code; html {out:?}"));
		}
		Ok(Ok_ { key: i.contains(':').then(|| hash(&out)) })
	})
}

/// Both oracles.
pub fn both(a: Oracle, b: Oracle) -> Oracle {
	Box::new(move |i| {
		a(i)?;
		b(i)
	})
}

/// Words (maximal runs of letters starting with q) exactly once and in order,
/// as text or else in an attribute, and separated as they were.
pub fn words() -> Oracle {
	Box::new(|i| {
		// Only the first word after a fence is kept, as the language
		let more = |l: &str| l.split_once("```").is_some_and(|(_, info)| info.split_whitespace().count() > 1 && !words_of(info).is_empty());
		if i.split('\n').any(more) {
			return Ok(Ok_ { key: None });
		}
		let (out, nodes) = read(i)?;
		let mut shown = String::new();
		html::visible_text(&nodes, &mut shown);
		let mut attrs = String::new();
		html::each_el(&nodes, &mut |e| {
			for (n, v) in &e.attrs {
				if matches!(n.as_str(), "href" | "src" | "alt" | "title" | "id" | "class") {
					attrs.push('\n');
					attrs.push_str(v);
				}
			}
		});
		let ws = words_of(i);
		let mut from = 0;
		let mut last: Option<(usize, usize)> = None;
		for (start, w) in &ws {
			let n = shown.matches(w.as_str()).count();
			if n == 0 {
				// Where text is not displayed it is in an attribute
				let n = attrs.matches(w.as_str()).count();
				if n == 0 {
					return Err(format!("{w:?} is lost; html {out:?}"));
				}
				if n > 1 {
					return Err(format!("{w:?} appears {n} times; html {out:?}"));
				}
				last = None;
				continue;
			}
			if n > 1 {
				return Err(format!("{w:?} appears {n} times; html {out:?}"));
			}
			let at = shown.find(w.as_str()).unwrap();
			if at < from {
				return Err(format!("{w:?} is out of order; html {out:?}"));
			}
			if let Some((src_end, out_end)) = last {
				let gap = &i[src_end..*start];
				// (backticks make code, which may drop its padding)
				let ws = |c: Option<char>| c.is_some_and(char::is_whitespace);
				let blank = (ws(gap.chars().next()) || ws(gap.chars().last())) && !gap.contains('`');
				if blank && !shown[out_end..at].contains(char::is_whitespace) {
					return Err(format!("{w:?} is glued to the text before it; html {out:?}"));
				}
			}
			last = Some((start + w.len(), at + w.len()));
			from = at + w.len();
		}
		Ok(Ok_ { key: (!ws.is_empty()).then(|| hash(&out)) })
	})
}

fn words_of(s: &str) -> Vec<(usize, String)> {
	let b = s.as_bytes();
	let mut out = vec![];
	let mut i = 0;
	while i < b.len() {
		if b[i] == b'q' {
			let mut j = i + 1;
			while j < b.len() && (b'A'..=b'P').contains(&b[j]) {
				j += 1;
			}
			out.push((i, s[i..j].to_string()));
			i = j;
		} else {
			i += 1;
		}
	}
	out
}

/// Replaces every `q` by a word that occurs nowhere else.
pub fn number_words(s: String) -> String {
	let mut n = 0usize;
	// fixed width, so that no word contains another
	let width = if s.matches('q').count() > 256 { 4 } else { 2 };
	let mut out = String::with_capacity(s.len() * 2);
	for c in s.chars() {
		out.push(c);
		if c == 'q' {
			for d in (0..width).rev() {
				out.push((b'A' + (n >> (4 * d) & 15) as u8) as char);
			}
			n += 1;
		}
	}
	out
}
