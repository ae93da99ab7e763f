//! A strict reader for the HTML that the renderer may produce, and the
//! canonical form in which its documents are compared.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
	El(El),
	Text(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct El {
	pub tag: String,
	pub attrs: Vec<(String, String)>,
	pub kids: Vec<Node>,
}

pub fn el(tag: &str, kids: Vec<Node>) -> Node {
	Node::El(El { tag: tag.into(), attrs: vec![], kids })
}
pub fn el_a(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
	Node::El(El {
		tag: tag.into(),
		attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
		kids,
	})
}
pub fn text(t: impl Into<String>) -> Node {
	Node::Text(t.into())
}

const VOID: [&str; 4] = ["br", "hr", "img", "input"];

fn entity(name: &str) -> Option<char> {
	Some(match name {
		"amp" => '&',
		"lt" => '<',
		"gt" => '>',
		"quot" => '"',
		"apos" => '\'',
		"lbrack" | "lsqb" => '[',
		"rbrack" | "rsqb" => ']',
		"lbrace" | "lcub" => '{',
		"rbrace" | "rcub" => '}',
		"lpar" => '(',
		"rpar" => ')',
		"verbar" | "vert" | "VerticalLine" => '|',
		"bsol" => '\\',
		"grave" => '`',
		"ast" => '*',
		"lowbar" => '_',
		"num" => '#',
		"excl" => '!',
		"colon" => ':',
		"nbsp" => '\u{a0}',
		// What browsers make of these, which is not what one might expect
		"tilde" => '\u{2dc}',
		"mid" => '\u{2223}',
		_ => {
			let n = name.strip_prefix('#')?;
			let code = match n.strip_prefix(['x', 'X']) {
				Some(h) => u32::from_str_radix(h, 16).ok()?,
				None => n.parse::<u32>().ok()?,
			};
			return char::from_u32(code);
		}
	})
}

/// Undoes HTML escapes. Every ampersand must start a known reference.
pub fn decode(raw: &str) -> Result<String, String> {
	let mut out = String::with_capacity(raw.len());
	let mut rest = raw;
	while let Some(i) = rest.find('&') {
		out.push_str(&rest[..i]);
		let tail = &rest[i + 1..];
		let end = tail
			.find(|c: char| !(c.is_ascii_alphanumeric() || c == '#'))
			.unwrap_or(tail.len());
		if !tail[end..].starts_with(';') {
			return Err(format!("bare ampersand in {:?}", raw));
		}
		match entity(&tail[..end]) {
			Some(c) => out.push(c),
			None => return Err(format!("unknown reference &{};", &tail[..end])),
		}
		rest = &tail[end + 1..];
	}
	out.push_str(rest);
	Ok(out)
}

pub fn parse(html: &str) -> Result<Vec<Node>, String> {
	let mut stack: Vec<El> = vec![El { tag: String::new(), attrs: vec![], kids: vec![] }];
	let mut rest = html;
	while !rest.is_empty() {
		let Some(i) = rest.find('<') else {
			let t = decode(rest)?;
			stack.last_mut().unwrap().kids.push(Node::Text(t));
			break;
		};
		if i > 0 {
			let t = decode(&rest[..i])?;
			stack.last_mut().unwrap().kids.push(Node::Text(t));
		}
		rest = &rest[i + 1..];
		if let Some(r) = rest.strip_prefix('/') {
			let end = r.find('>').ok_or("unterminated closing tag")?;
			let name = &r[..end];
			let top = stack.pop().unwrap();
			if stack.is_empty() || top.tag != name {
				return Err(format!("</{}> closes <{}>", name, top.tag));
			}
			stack.last_mut().unwrap().kids.push(Node::El(top));
			rest = &r[end + 1..];
			continue;
		}
		let end = rest
			.find(|c: char| !c.is_ascii_alphanumeric())
			.ok_or("unterminated tag")?;
		let tag = rest[..end].to_string();
		if tag.is_empty() || !tag.as_bytes()[0].is_ascii_alphabetic() {
			return Err(format!("stray < before {:?}", rest.chars().take(12).collect::<String>()));
		}
		rest = &rest[end..];
		let mut attrs: Vec<(String, String)> = vec![];
		let selfclosed;
		loop {
			let had_space = rest.starts_with([' ', '\n', '\t']);
			rest = rest.trim_start_matches([' ', '\n', '\t']);
			if let Some(r) = rest.strip_prefix('>') {
				rest = r;
				selfclosed = false;
				break;
			}
			if let Some(r) = rest.strip_prefix("/>") {
				rest = r;
				selfclosed = true;
				break;
			}
			if !had_space {
				return Err(format!("malformed tag <{}", tag));
			}
			let e = rest
				.find(|c: char| !(c.is_ascii_lowercase() || c == '-'))
				.ok_or("unterminated attribute")?;
			let name = rest[..e].to_string();
			let Some(r) = rest[e..].strip_prefix("=\"") else {
				return Err(format!("unquoted or malformed attribute in <{}: {:?}", tag, name));
			};
			if name.is_empty() {
				return Err(format!("attribute without a name in <{}", tag));
			}
			let q = r.find('"').ok_or("unterminated attribute value")?;
			let value = decode(&r[..q])?;
			if attrs.iter().any(|a| a.0 == name) {
				return Err(format!("attribute {} twice in <{}", name, tag));
			}
			attrs.push((name, value));
			rest = &r[q + 1..];
		}
		let e = El { tag, attrs, kids: vec![] };
		if VOID.contains(&e.tag.as_str()) {
			stack.last_mut().unwrap().kids.push(Node::El(e));
		} else if selfclosed {
			return Err(format!("<{} /> is not an empty element", e.tag));
		} else {
			stack.push(e);
		}
	}
	if stack.len() != 1 {
		return Err(format!("<{}> is never closed", stack.last().unwrap().tag));
	}
	Ok(stack.pop().unwrap().kids)
}

/// Elements, attributes and attribute values that Markdown constructs have.
pub fn check_allowed(nodes: &[Node]) -> Result<(), String> {
	for n in nodes {
		let Node::El(e) = n else { continue };
		let ok_tag = matches!(
			e.tag.as_str(),
			"p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "ul" | "ol" | "li"
				| "blockquote" | "pre" | "code" | "table" | "thead" | "tbody" | "tr"
				| "th" | "td" | "em" | "strong" | "strike" | "del" | "a" | "img"
				| "br" | "hr" | "input" | "sup" | "details" | "summary" | "div"
		);
		if !ok_tag {
			return Err(format!("element <{}> is no Markdown construct", e.tag));
		}
		for (name, value) in &e.attrs {
			let v = value.as_str();
			let ok = match (e.tag.as_str(), name.as_str()) {
				("h1" | "h2" | "h3" | "h4" | "h5" | "h6", "id") => true,
				("a", "href" | "title") => true,
				("a", "class") => matches!(v, "footnote" | "reversefootnote"),
				("a", "rel") => v == "footnote",
				("a", "role") => v == "doc-backlink",
				("img", "src" | "alt" | "title") => true,
				("img", "referrerpolicy") => v == "no-referrer",
				("ol", "start") => !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()),
				("ul", "class") => v == "contains-task-list",
				("li", "class") => v == "task-list-item",
				("li", "id") => v.starts_with("fn:"),
				("li", "role") => v == "doc-endnote",
				("input", "type") => v == "checkbox",
				("input", "class") => v == "task-list-item-checkbox",
				("input", "checked" | "disabled") => v.is_empty(),
				("sup", "id") => v.starts_with("fnref:"),
				("sup", "role") => v == "doc-noteref",
				("div", "class") => v == "footnotes",
				("div", "role") => v == "doc-endnotes",
				("table", "class") => v == "table table-bordered",
				("th" | "td", "style") => matches!(
					v,
					"text-align: left" | "text-align: center" | "text-align: right"
				),
				("code", "class") => v.starts_with("language-"),
				_ => false,
			};
			if !ok {
				return Err(format!("attribute {}={:?} on <{}>", name, v, e.tag));
			}
		}
		check_allowed(&e.kids)?;
	}
	Ok(())
}

fn is_inline(tag: &str) -> bool {
	matches!(tag, "em" | "strong" | "strike" | "del" | "a" | "img" | "br" | "sup" | "code")
}

/// Which element may be where.
pub fn check_content(parent: &str, nodes: &[Node]) -> Result<(), String> {
	let mut index = 0;
	for n in nodes {
		match n {
			Node::Text(t) => {
				let blank = t.chars().all(|c| matches!(c, ' ' | '\t' | '\n'));
				let ok = blank
					|| matches!(
						parent,
						"p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "td" | "th" | "em"
							| "strong" | "strike" | "del" | "a" | "code" | "summary"
					);
				if !ok {
					return Err(format!("text {:?} directly in <{}>", t, parent));
				}
			}
			Node::El(e) => {
				let tag = e.tag.as_str();
				let ok = match parent {
					"" | "blockquote" | "li" | "details" => {
						matches!(
							tag,
							"p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "ul" | "ol"
								| "blockquote" | "pre" | "table" | "hr" | "details" | "div"
						) || (parent == "li" && tag == "input" && index == 0)
							|| (parent == "details" && tag == "summary" && index == 0)
					}
					"div" => tag == "ol",
					"ul" | "ol" => tag == "li",
					"table" => tag == "thead" && index == 0 || tag == "tbody" && index == 1,
					"thead" => tag == "tr" && index == 0,
					"tbody" => tag == "tr",
					"tr" => matches!(tag, "th" | "td"),
					"pre" => tag == "code" && index == 0,
					"p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "td" | "th" => is_inline(tag),
					"em" | "strong" | "strike" | "del" => is_inline(tag),
					"sup" => tag == "a",
					"a" => is_inline(tag) && tag != "a",
					_ => false,
				};
				if !ok {
					return Err(format!("<{}> directly in <{}>", tag, parent));
				}
				if tag == "details"
					&& !e
						.kids
						.iter()
						.find_map(|k| match k {
							Node::El(e) => Some(e.tag == "summary"),
							_ => None,
						})
						.unwrap_or(false)
				{
					return Err("<details> without <summary>".into());
				}
				check_content(tag, &e.kids)?;
				index += 1;
			}
		}
	}
	Ok(())
}

fn push_attr(out: &mut String, name: &str, value: &str) {
	out.push(' ');
	out.push_str(name);
	out.push('=');
	out.push('\u{1}');
	out.push_str(value);
	out.push('\u{1}');
}

struct Flow {
	/// Whitespace is pending before the next text of this inline run
	space: bool,
	/// Nothing is in this inline run yet
	start: bool,
}

fn canon_inline(out: &mut String, nodes: &[Node], flow: &mut Flow) {
	for n in nodes {
		match n {
			Node::Text(t) => {
				for c in t.chars() {
					if matches!(c, ' ' | '\t' | '\n' | '\x0c' | '\r') {
						flow.space = true;
					} else {
						if flow.space && !flow.start {
							out.push(' ');
						}
						flow.space = false;
						flow.start = false;
						if c == '<' {
							out.push('\u{2}');
						}
						out.push(c);
					}
				}
			}
			Node::El(e) => {
				if e.tag == "br" {
					flow.space = false;
					flow.start = true;
					out.push_str("<br>");
					continue;
				}
				if flow.space && !flow.start {
					out.push(' ');
				}
				flow.space = false;
				flow.start = false;
				canon_open(out, e);
				if e.tag == "code" {
					for k in &e.kids {
						if let Node::Text(t) = k {
							out.push_str(&t.replace('<', "\u{2}<"));
						}
					}
				} else {
					canon_inline(out, &e.kids, flow);
				}
				canon_close(out, e);
			}
		}
	}
}

fn canon_tag(e: &El) -> &str {
	if e.tag == "del" {
		"strike"
	} else {
		&e.tag
	}
}

fn canon_open(out: &mut String, e: &El) {
	out.push('<');
	out.push_str(canon_tag(e));
	let mut attrs: Vec<_> = e.attrs.iter().collect();
	attrs.sort();
	for (name, value) in attrs {
		match name.as_str() {
			"href" | "title" | "src" | "alt" | "start" | "id" | "style" | "checked" => {
				push_attr(out, name, value)
			}
			"class" if e.tag == "code" => push_attr(out, name, value),
			_ => {}
		}
	}
	out.push('>');
}

fn canon_close(out: &mut String, e: &El) {
	if !VOID.contains(&e.tag.as_str()) {
		out.push_str("</");
		out.push_str(canon_tag(e));
		out.push('>');
	}
}

fn canon_block(out: &mut String, nodes: &[Node]) {
	for n in nodes {
		match n {
			Node::Text(t) => {
				let t = t.trim_matches([' ', '\t', '\n']);
				if !t.is_empty() {
					out.push_str("<?text>");
					out.push_str(t);
				}
			}
			Node::El(e) => {
				canon_open(out, e);
				match e.tag.as_str() {
					"p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "td" | "th" | "summary" => {
						canon_inline(out, &e.kids, &mut Flow { space: false, start: true })
					}
					"pre" => {
						for k in &e.kids {
							if let Node::El(c) = k {
								canon_open(out, c);
								for k in &c.kids {
									if let Node::Text(t) = k {
										out.push_str(&t.replace('<', "\u{2}<"));
									}
								}
								canon_close(out, c);
							}
						}
					}
					_ => canon_block(out, &e.kids),
				}
				canon_close(out, e);
			}
		}
	}
}

/// The canonical form: element structure, meaningful attributes, text with
/// whitespace collapsed outside of code.
pub fn canon(nodes: &[Node]) -> String {
	let mut out = String::new();
	canon_block(&mut out, nodes);
	out
}

/// All text in document order, with element boundaries of blocks and breaks
/// as whitespace.
pub fn visible_text(nodes: &[Node], out: &mut String) {
	for n in nodes {
		match n {
			Node::Text(t) => out.push_str(t),
			Node::El(e) => {
				let inline = is_inline(&e.tag) && e.tag != "br";
				if !inline {
					out.push('\n');
				}
				visible_text(&e.kids, out);
				if !inline {
					out.push('\n');
				}
			}
		}
	}
}

pub fn each_el<'a>(nodes: &'a [Node], f: &mut dyn FnMut(&'a El)) {
	for n in nodes {
		if let Node::El(e) = n {
			f(e);
			each_el(&e.kids, f);
		}
	}
}
