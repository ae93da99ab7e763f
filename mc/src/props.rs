//! Which spaces are explored for which property, and against which oracle.

use crate::dict::dict;
use crate::html;
use crate::oracle::{self, both, model, number_words, skeleton, render, safe, safe_urls, total, well_formed, words};
use crate::runner::{hash, Campaign, Ok_, Oracle};
use crate::space::*;

pub struct Property {
	pub level: &'static str,
	pub rule: &'static str,
	pub assumptions: Vec<&'static str>,
	pub campaigns: Vec<Campaign>,
}

pub const IDS: [&str; 18] = [
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
	"C14", "C15", "C16", "C18", "C19",
];

fn c(name: &str, space: Box<dyn Space>, oracle: Oracle) -> Campaign {
	Campaign { name: name.into(), space, oracle }
}

/// One symbol of every kind that means something somewhere.
const ALL: &str = "a \n*_~`#>-1.|\\[]()!<:\"^@/{}\t+&='xé\r";
/// The same, with characters of every UTF-8 length and odd whitespace.
const WIDE: &str = "a \n*_~`#>-1.|\\[]()!<:\"^@{}\t+&\ré€𐍈\u{a0}\u{2028}\u{0}\u{b}";

/// Lines of every kind of block, complete or not.
const LINES: [&str; 52] = [
	"a\n", "b c\n", "\n", "  \n", "# h\n", "## h ##\n", "###### h {#i}\n", "####### x\n", "- a\n",
	"+ a\n", "* a\n", "  - b\n", "    - c\n", "1. a\n", "2. b\n", "10. c\n", "   d\n", "- [ ] t\n",
	"- [x] t\n", "> q\n", ">> q\n", ">\n", "```\n", "````\n", "```rs\n", "    code\n", "\tcode\n",
	"---\n", "***\n", "| a | b |\n", "|---|:-:|\n", "| c |\n", "<details>\n",
	"<summary>s</summary>\n", "</details>\n", "</details> x\n", "[^n]\n", "[^n]: note\n", "*em*\n",
	"*open\n", "close*\n", "`open\n", "a  \n", "a\\\n", "[l](u)\n", "~~s~~\n", "<http://x.y>\n",
	"![i](u)\n", "-\n", "1.\n", "> - q\n", "  \\# e\n",
];

/// Every place inside a construct where text can be; X is the text.
const SLOTS: [&str; 96] = [
	"X", "a X b", "aXb", "# X", "## X ##", "- X", "1. X", "- [x] X", "> X", ">> X",
	"| X | b |\n|-|-|\n| c | d |", "| a | b |\n|-|:-|\n| c | X |", "*X*", "**X**", "***X***", "_X_",
	"~~X~~", "[X](u)", "[t](X)", "[t](http://X)", "[t](u \"X\")", "[t](u 'X')", "![X](u)",
	"![t](X)", "![t](u \"X\")", "`X`", "``X``", "```\nX\n```", "```X\nc\n```", "    X", "<X>",
	"<http://X>", "<X@y.z>", "# h {#X}", "<details>\n<summary>X</summary>\nb\n</details>",
	"<details>\n<summary>s</summary>\nX\n</details>", "[^n]\n\n[^n]: X", "[^X]\n\n[^X]: n", "[^X]",
	"a\\X", "X\nb", "a\nX", "[t][X]", "[t](X", "*X", "`X", "[X", "<X", "~~X", "**X*", "- a\n  X",
	"> a\n> X", "![X]()", "![X]( \"t\")", "![]( \"X\")", "![X](u \"t\")", "[X](u 't')", "[X]()", "[](X)", "![](X \"t\")", "# X {#l}",
	"- [ ] X", "- [ ] a\n- [x] X\n- b", "> - X", "- > X", "1. a\n2. X\n3. b", "[^n]: X\n\n[^n]", "[^n]: a\n  X\n\nb [^n]", "```a X\nc\n```",
	"<details>\n<summary>s</summary>\nb\n</details> X", "X\n\n# h", "a\n\nX\n\nb", "a\n- X", "__X__", "___X___", "[t](u)X[v](w)", "*a*X*b*",
	"<mailto:X>", "<x:X>", "- a\n\n  X",
	// the same text in more than one place
	"[X](u \"X\")", "[X](u 'X')", "![X](u 'X')", "[X](X)", "[X](X \"X\")", "# X {#X}", "```X\nX\n```", "X[^X]\n\n[^X]: X", "|X|X|\n|-|-|\n|X|X|", "<details>\n<summary>X</summary>\nX\n</details>", "- X\n- X", "> X\n> X", "# X\n\nX", "*X* *X*", "# X\n# X", "[X](u)[X](u)",
];

/// Every text of a list in every slot.
fn slots(texts: Vec<String>, what: &str) -> Box<dyn Space> {
	fill(SLOTS.iter().map(|s| s.to_string()).collect(), texts, what)
}

struct Fill(Vec<String>, Box<dyn Space>, String);
impl Space for Fill {
	fn len(&self) -> u64 {
		self.0.len() as u64 * self.1.len()
	}
	fn get(&self, i: u64) -> String {
		let n = self.0.len() as u64;
		self.0[(i % n) as usize].replace('X', &self.1.get(i / n))
	}
	fn bound(&self) -> String {
		format!("{} in each of {} constructs", self.2, self.0.len())
	}
}
fn fill(templates: Vec<String>, texts: Vec<String>, what: &str) -> Box<dyn Space> {
	Box::new(Fill(templates, list(what, texts), what.into()))
}
fn fill_space(templates: &[&str], texts: Box<dyn Space>) -> Box<dyn Space> {
	let what = texts.bound();
	Box::new(Fill(templates.iter().map(|s| s.to_string()).collect(), texts, what))
}

fn unicode(all: bool) -> Vec<String> {
	let edges = [
		0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0x20000, 0xfffff,
		0x10ffff, 0x2126, 0x212a, 0x212b, 0x2160, 0x24b6, 0x2c00, 0x3000, 0x3001, 0x3002, 0xa000, 0xfb01, 0xfe0f, 0xfefe, 0xff00, 0xff03, 0xff0d, 0xff11, 0xff1e,
		0xff3c, 0xff3f, 0xff40, 0xff5e, 0x1d7d8, 0xe0001, 0x3040, 0x4e00, 0xac00, 0xff01, 0xff5c, 0xff0a, 0x1d7ce,
	];
	let n = if all { 0x110000 } else { 0x2070 };
	(0..n)
		.chain(edges)
		.filter_map(char::from_u32)
		.map(|c| c.to_string())
		.chain(dict().chars.iter().filter(|c| !c.is_ascii()).cloned())
		.collect()
}

/// Sizes around the numbers of the code, as far as they are not looked at anyway.
fn code_sizes(known: &[usize], from: usize, to: usize) -> Vec<usize> {
	let mut v: Vec<usize> = dict().numbers.iter().filter(|n| **n <= 1 << 20).flat_map(|n| [n.saturating_sub(1), *n, n + 1, n / 2]).filter(|n| (from..=to).contains(n) && !known.contains(n)).collect();
	v.sort();
	v.dedup();
	v.truncate(32);
	v
}

/// The words of the code, as they are, in other cases and next to other text.
fn code_words() -> Vec<String> {
	let d = dict();
	let mut v = vec![];
	for w in &d.words {
		v.extend([w.clone(), format!("a{w}"), format!("{w}b"), format!("a {w} b"), w.repeat(2), w.to_uppercase(), w.to_lowercase()]);
		for s in ["<", ">", "&", "\"", "'", "\\", "`", "*", "|", "]", ")", "\n"] {
			v.extend([format!("{w}{s}"), format!("{s}{w}"), format!("{w}a{s}b")]);
		}
	}
	for c in &d.chars {
		v.extend([c.clone(), c.repeat(2), format!("a{c}")]);
	}
	v.sort_by_key(|w| (w.len(), w.clone()));
	v.dedup();
	v
}
/// Pairs of words and symbols of the code.
fn code_pairs() -> Box<dyn Space> {
	let d = dict();
	let w: Vec<String> = d.chars.iter().filter(|c| !c.chars().all(|c| c.is_ascii_alphanumeric())).chain(&d.words).cloned().collect();
	fill_space(&["X", "a\nX", "# X", "- X", "[X](u)", "[t](X)", "<X>", "| X | b |\n|-|-|\n| c | d |"], product_s(vec![w.clone(), w]))
}
/// Constructs as large as the numbers of the code, where those are large.
fn code_large() -> Vec<String> {
	let mut out = vec![];
	for n in code_sizes(&marks(false), 1026, 6000) {
		for s in SLOTS {
			out.push(s.replace('X', &"a".repeat(n)));
			out.push(s.replace('X', &"é ".repeat(n)));
			out.push(s.replace('X', &"a\n".repeat(n)));
		}
		for l in LINES {
			out.push(l.repeat(n));
			out.push("b\n\n".repeat(n) + l);
		}
	}
	for n in code_sizes(&[], 6001, 1 << 18) {
		for s in ["X", "# X", "- X", "> X", "`X`", "[X](u)", "[t](X)", "```\nX\n```", "    X", "*X*", "| X |\n|-|\n| b |"] {
			out.push(s.replace('X', &"a".repeat(n)));
			out.push(s.replace('X', &"é".repeat(n)));
		}
		if n <= 70_000 {
			out.push("a\n\n".repeat(n) + "1. b");
			out.push("a\n".repeat(n) + "# b");
		}
	}
	out
}

fn repeats(frags: &[&str], counts: &[usize], ends: &[&str]) -> Vec<String> {
	let mut out = vec![];
	for f in frags {
		for &n in counts {
			for e in ends {
				out.push(f.repeat(n) + e);
			}
		}
	}
	out
}

/// Single fragments, alone or before another one, for sweeps over sizes.
const FRAGS: [&str; 46] = [
	"a", " ", "\n", "\t", "*", "_", "~", "`", "#", ">", "-", "1", ".", "|", "\\", "[", "]", "(",
	")", "!", "<", "&", "é", "𐍈", "* ", "- ", "> ", "1. ", "[a](", "![", "[^", "*a", "**a", "`a ",
	"~~a", "<a", "| a ", "|\n", "- \n", "a\n", "> a\n", "# a\n", "a  \n", "<details>\n<summary>s</summary>\n",
	"</details>", "```\n",
];

fn sizes(t: bool) -> Vec<usize> {
	let mut v: Vec<usize> = (1..=40).collect();
	v.extend([63, 64, 65, 98, 99, 100, 101, 102, 103, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
	if t {
		v.extend(41..=320);
		v.extend([511, 512, 513, 700, 999, 1000, 1001, 1500]);
	}
	v.sort();
	v.dedup();
	v
}

/// Sizes around which things may change: all small ones, and powers of two and ten.
fn marks(t: bool) -> Vec<usize> {
	let mut v: Vec<usize> = (1..=34).collect();
	v.extend([
		40, 48, 49, 50, 51, 60, 63, 64, 65, 66, 79, 80, 81, 99, 100, 101, 120, 127, 128, 129, 200, 254, 255,
		256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
	]);
	if t {
		v.extend(35..=300);
		v.extend([2047, 2048, 2049, 4095, 4096, 4097]);
	}
	v.extend(code_sizes(&v, 35, 1100));
	v.sort();
	v.dedup();
	v
}

/// Templates with one of some fragments, repeated.
struct Pump(Vec<String>, Vec<String>, Vec<usize>);
impl Space for Pump {
	fn len(&self) -> u64 {
		(self.0.len() * self.1.len() * self.2.len()) as u64
	}
	fn get(&self, i: u64) -> String {
		let i = i as usize;
		let (a, b) = (self.0.len(), self.1.len());
		self.0[i % a].replace('X', &self.1[i / a % b].repeat(self.2[i / a / b]))
	}
	fn bound(&self) -> String {
		format!(
			"{} fragments, each 1 to {} times ({} sizes), in each of {} constructs",
			self.1.len(),
			self.2.last().unwrap(),
			self.2.len(),
			self.0.len()
		)
	}
}
const PUMPED: [&str; 13] = ["a", "é", "木", "𐍈", "aé", "ab ", "a b\n", "*a* ", "`a` ", "\\*", "&", "[a](b) ", "1"];

fn pumped(t: bool) -> Box<dyn Space> {
	Box::new(Pump(strings(&SLOTS), strings(&PUMPED), marks(t)))
}
/// Many words and lines that end with a character.
fn pumped_to(t: bool) -> Box<dyn Space> {
	let tpl = SLOTS.iter().map(|s| s.replace('X', "Xb")).collect();
	Box::new(Pump(tpl, strings(&["a ", "a\n", "*a* ", "a\\\n", "1 ", "- "]), marks(t)))
}

/// Lines repeated many times, before, after and in turns with another one.
struct Runs(Vec<usize>);
impl Space for Runs {
	fn len(&self) -> u64 {
		(LINES.len() * LINES.len() * 3 * self.0.len()) as u64
	}
	fn get(&self, i: u64) -> String {
		let (n, i) = (self.0[i as usize / (LINES.len() * LINES.len() * 3)], i as usize % (LINES.len() * LINES.len() * 3));
		let (a, b) = (LINES[i / 3 % LINES.len()], LINES[i / 3 / LINES.len()]);
		match i % 3 {
			0 => a.repeat(n) + b,
			1 => a.to_string() + &b.repeat(n),
			_ => (a.to_string() + b).repeat(n),
		}
	}
	fn bound(&self) -> String {
		format!("every line 2 to {} times ({} sizes) before, after and in turns with every other", self.0.last().unwrap(), self.0.len())
	}
}
fn runs(t: bool) -> Box<dyn Space> {
	let mut v: Vec<usize> = if t { (2..=34).chain([63, 64, 65, 99, 100, 101, 102, 128, 255, 256, 257, 500, 1030]).collect() } else { vec![2, 3, 4, 5, 7, 9, 10, 11, 16, 17, 33, 101, 300] };
	v.extend(code_sizes(&v, 102, 600));
	Box::new(Runs(v))
}

/// Places where a run of one character may mean something, or separate things.
const AROUND: [&str; 38] = [
	"X", "Xa", "aX", "aXb", "a X b", "X a", "a X", "XaX", "X a X", "aXbXc", "a\nX\nb", "a\n\nX\n\nb", "Xa\nb", "aX\nb",
	"- X", "- aX- b", "- aX  b", "1. aX2. b", "- [x] aX- [ ] b", "# X", "# aX", "# aXb", "> X", "> aX> b", "> a\n>X> b",
	"| X | b |\n|-|-|\n| c | d |", "| aXb |\n|-|\n| c |", "| a |\n|X|\n| c |", "| a |\n|-|\n| b |Xc", "[X](u)", "[t](X)", "[t](uX\"b\")", "[t](u \"X\")",
	"`X`", "```\naXb\n```", "    aX    b", "[^n]: aX  b\n\n[^n]", "<details>\n<summary>s</summary>Xa\nX</details>X b",
];
/// Runs of every symbol and blank, alone and on both sides.
fn symbol_runs(t: bool) -> Box<dyn Space> {
	let symbols: Vec<String> = (0x21..0x7fu8).filter(|b| b.is_ascii_punctuation()).map(|b| (b as char).to_string()).collect();
	let symbols = [symbols, strings(&[" ", "\n", "\t", " \n", "\n ", "\r\n", "0", "é", "\u{a0}"])].concat();
	Box::new(Pump(strings(&AROUND), symbols, marks(t)))
}
/// Two runs of the same or of different delimiters of all lengths.
fn unequal_runs(t: bool) -> Box<dyn Space> {
	let runs = |m: usize| -> Vec<String> {
		let mut v = vec![String::new()];
		for d in ["*", "_", "~", "`", "#", "\\", "\"", "[", "]", ">", "<", "|", "-"] {
			v.extend((1..=m).map(|n| d.repeat(n)));
		}
		v
	};
	let m = if t { 7 } else { 5 };
	product_s(vec![strings(&["", "b", "b ", "# ", "- "]), runs(m), strings(&["a", "a b", " a", "a\nb"]), runs(m), strings(&["", "c", " c"])])
}

/// Every pair of printable characters in every construct.
fn ascii_pairs() -> Box<dyn Space> {
	let asc: Vec<String> = (0x20..0x7fu8).map(|b| (b as char).to_string()).collect();
	fill_space(&SLOTS, product_s(vec![asc.clone(), asc]))
}

/// Documents that use everything, for cutting and splicing.
const BIG: [&str; 4] = [
	"# Title {#top}\n\nSome *em* and **strong** ***both*** ~~struck~~ `code` text  \nnext\\\nline [link](http://x.y/a?b=c&d \"title\") ![img](i.png) <http://a.b> <m@n.o>[^1].\n\n- a\n- b\n  - c\n\n    d\n- [ ] t\n- [x] u\n\n3. x\n4. y\n\n> q\n>> r\n> s\n\n```rs\nfn main() {}\n```\n\n    code\n\n---\n\n| a | b |\n|:--|--:|\n| c | d \\| e |\n\n<details>\n<summary>S</summary>\n\nbody\n\n</details>\n\n[^1]: note\n  more\n",
	"> - ```\n>   é\n>   ```\n> 1. <details>\n>    <summary>€</summary>\n>    | x |\n>    |-|\n>    | 𐍈 |\n>    </details>\n\n* [a](<b> 'c')\n+ ![](\n_x_ __y__ ___z___ \\* \\\\ \\a",
	"<details>\n<summary>a</summary>\n<details>\n<summary>b</summary>\n# c\n</details>\n> d\n</details> e\n[^x]: y\n[^x] [^z]\n",
	"1. a\n   > b\n   > - c\n   >   `d`\n   >   ~~~\n   e\n2. f\n\n\tg\n\n\t\th\n***\n___\n- - -\n#\n###### \n####### i",
];

fn cuts() -> Vec<String> {
	let mut out = vec![];
	for b in BIG {
		for (i, _) in b.char_indices() {
			out.push(b[..i].to_string());
			out.push(b[i..].to_string());
		}
		out.push(b.to_string());
	}
	out
}
/// Every document of BIG with one short piece removed.
fn gaps() -> Vec<String> {
	let mut out = vec![];
	for b in BIG {
		let at: Vec<usize> = b.char_indices().map(|x| x.0).chain([b.len()]).collect();
		for i in 0..at.len() - 1 {
			for k in 1..=3 {
				if i + k < at.len() {
					out.push(b[..at[i]].to_string() + &b[at[i + k]..]);
				}
			}
		}
	}
	out
}
/// Every document of BIG with one symbol put in somewhere.
fn inserts() -> Vec<String> {
	let mut out = vec![];
	for b in BIG {
		for (i, _) in b.char_indices() {
			for s in ALL.chars() {
				out.push(format!("{}{}{}", &b[..i], s, &b[i..]));
			}
		}
	}
	out
}

/// Every construct, with plain text and with markup in it, and some wide ones,
/// in quotes, items and sections nested to many depths.
struct Depths(Vec<String>, Vec<usize>);
const DEPTH_WAYS: [(&str, &str); 7] = [("- ", "  "), ("1. ", "   "), ("> ", "> "), ("> - ", ">   "), ("- [x] ", "  "), ("- > ", "  > "), ("", "")];
fn at_depth(way: usize, n: usize, doc: &str) -> String {
	let (first, rest) = DEPTH_WAYS[way];
	if first.is_empty() {
		return "<details>\n<summary>s</summary>\n".repeat(n) + doc + &"\n</details>".repeat(n);
	}
	let (first, rest) = (first.repeat(n), rest.repeat(n));
	doc.split('\n').enumerate().map(|(i, l)| if i == 0 { format!("{first}{l}") } else { format!("\n{rest}{l}") }).collect()
}
impl Space for Depths {
	fn len(&self) -> u64 {
		(DEPTH_WAYS.len() * self.0.len() * self.1.len()) as u64
	}
	fn get(&self, i: u64) -> String {
		let (i, w) = (i as usize / DEPTH_WAYS.len(), i as usize % DEPTH_WAYS.len());
		let (i, d) = (i / self.0.len(), i % self.0.len());
		at_depth(w, self.1[i], &self.0[d])
	}
	fn bound(&self) -> String {
		format!("{} constructs in {} kinds of nesting, each 1 to {} deep ({} depths)", self.0.len(), DEPTH_WAYS.len(), self.1.last().unwrap(), self.1.len())
	}
}
fn depths(t: bool, payloads: &[&str]) -> Box<dyn Space> {
	let mut docs: Vec<String> = payloads.iter().flat_map(|p| SLOTS.iter().map(move |s| s.replace('X', p))).collect();
	docs.extend(["a\n", "- a\n", "# a\n", "a\n\n", "*a* ", "> a\n", "`a` ", "[^n]: a\n", "1. a\n"].iter().map(|l| l.repeat(60)));
	let mut d: Vec<usize> = if t { (1..=130).chain([150, 200, 255, 256, 257]).collect() } else { vec![2, 3, 4, 5, 8, 10, 16, 20, 32, 33, 64, 98, 99, 100, 101, 102, 128] };
	d.extend(code_sizes(&d, 3, 256));
	Box::new(Depths(docs, d))
}

/// Names that mean something in HTML, as tags and as references.
fn html_words() -> Vec<String> {
	let tags = "a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption center cite code col dd del details dfn dialog div dl dt em embed fieldset figure font footer form frame h1 h6 head header hr html i iframe img input ins kbd label legend li link main map mark math menu meta nav noscript object ol option p param picture plaintext pre progress q s samp script section select slot small source span strike strong style sub summary sup svg table tbody td template textarea th title tr track tt u ul var video wbr xmp";
	let refs = "nbsp amp lt gt quot apos copy reg trade hellip mdash ndash laquo raquo bull middot times divide deg plusmn para sect euro pound yen cent eacute auml szlig alpha omega larr rarr uarr darr check star Tab NewLine colon lpar rpar zwj shy ensp emsp #0 #9 #10 #13 #32 #34 #38 #39 #60 #62 #160 #x3c #x3C #X3E #x22 #x27 #x26 #xa0 #128512 #x1F600 #58 #x3a #92 #91 #93 #42 #95 AMP LT GT QUOT";
	let mut v = vec![];
	for t in tags.split(' ') {
		let u = t.to_uppercase();
		v.extend([format!("<{t}>"), format!("</{t}>"), format!("<{t}/>"), format!("<{t} x=\"y\">"), format!("<{u}>"), format!("<{t}>a</{t}>"), format!("<{t}")]);
	}
	for r in refs.split(' ') {
		v.extend([format!("&{r};"), format!("&{r}"), format!("a&{r};b"), format!("&amp;{r};"), format!("\\&{r};")]);
	}
	v.extend(strings(&["<!-- a -->", "<!--", "-->", "<!doctype html>", "<![CDATA[a]]>", "<?php a ?>", "<%= a %>", "{{ a }}", "${a}", "<a href=\"javascript:x\">b</a>", "<img src=x onerror=y>", "<svg/onload=x>", "</p><b>", "\"><b>", "'><b>", "\" onclick=\"x", "' onclick='x", "` onclick=`x", "<<b>>", "<b", "b>", "< b>", "</ b>", "<1>", "<é>", "<b\n>", "<b\tc>"]));
	v
}

fn strings(v: &[&str]) -> Vec<String> {
	v.iter().map(|s| s.to_string()).collect()
}
fn all_of(s: Box<dyn Space>) -> Vec<String> {
	(0..s.len()).map(|i| s.get(i)).collect()
}

const NEST: [Place; 7] = [TOP, ITEM, NUMBER, TASK, QUOTE, QUOTE2, DETAILS];

/// Lines of every kind, in every variant, indented in every way.
fn detailed() -> Vec<String> {
	let bodies = [
		"a", "*a*", "# a", "## a ##", "####### a", "#", "# a {#l}", "- a", "+ a", "* a", "-\ta", "-  a", "-", "- [ ] a", "+ [x] a", "* [X] a", "+ [X] a", "- [x]", "1. a", "2. a", "10. a", "1) a", "1.", "1. [x] a", "- - a", "- 1. a", "- > a", "- # a", "- ```", "> a", ">> a", ">>> a", ">a", ">",
		">> - a", "> # a", "> > a", "```", "```rs", "````", "~~~", "|a|b|", "a|b", "|-|-|", "|:-|-:|", "|-|", "---", "- - -", "***", "___", "===", "<details>", "<summary>s</summary>", "</details>", "</details> a", "[^n]", "[^n]: a", "a  ", "a\\", "a ", "", "`a", "a`", "*a", "a*", "**a", "[a", "](b)", "<a", "\\# a", "\\- a", "[a](b)", "![a](b)", "<x:y>", "~~a~~", "---a",
	];
	["", " ", "  ", "   ", "    ", "\t"].iter().flat_map(|i| bodies.iter().map(move |b| format!("{i}{b}"))).collect()
}
fn detailed_pairs() -> Box<dyn Space> {
	product_s(vec![strings(&["", "z\n"]), detailed(), strings(&["\n", "\n\n"]), detailed(), strings(&["", "\nb", "\n  b"])])
}

/// What every structural property is also checked on: short documents of
/// every kind and damaged documents that use everything.
fn common(out: &mut Vec<Campaign>, t: bool) {
	out.push(c("every short text", chars(ALL, 0, if t { 4 } else { 3 }), model()));
	out.push(c("every short sequence of lines", seq(&LINES, 0, if t { 4 } else { 3 }), model()));
	out.push(c("every pair of lines in every variant", detailed_pairs(), model()));
	out.push(c("large documents cut anywhere", list("every prefix and suffix of 4 documents", cuts()), model()));
	out.push(c("large documents with gaps", list("every removal of 1 to 3 characters from 4 documents", gaps()), model()));
	out.push(c(
		"large documents with insertions",
		list("every insertion of one symbol into 4 documents", inserts()),
		model(),
	));
	out.push(c("constructs of every size", pumped(t), model()));
	out.push(c("constructs of every number of words and lines", pumped_to(t), model()));
	out.push(c("runs of lines", runs(t), model()));
	out.push(c("runs of every symbol", symbol_runs(t), model()));
	out.push(c("unequal runs of delimiters", unequal_runs(t), model()));
	out.push(c("every pair of characters in every construct", ascii_pairs(), model()));
	out.push(c("every construct at many depths", depths(t, &["a"]), model()));
	code(out, model);
	out.push(c("tags and references of HTML in every construct", fill(strings(&SLOTS), html_words(), "tags of all elements, references of all kinds"), model()));
}
/// Places for a number.
const NUMBERED: [&str; 30] = [
	"X. a", "X.", "X.\n", "X) a", "X.a", "X.\ta", "- X. a", "> X. a", "a\nX. b", "1. a\nX. b", "X. a\nX. b", "X. a\n\n   b", "X. - a", "X. X. a", "X\\. a", "a\n\nX. b\n\nc\n\nX. d", "[^X]\n\n[^X]: n", "[^1]\n\n[^1]: X. a",
	"<x:X>", "<http://a:X>", "&#X;", "&#xX;", "![a](X)", "[a](x:X)", "|X|\n|-|\n|X|", "# X", "# a {#X}", "```X\na\n```", "<details>\n<summary>X. s</summary>\nX. b\n</details>", "   X. a\n      b",
];

fn digit_words() -> Vec<String> {
	let mut v: Vec<String> = vec![];
	for n in 1..=40 {
		for d in ["0", "1", "9", "42949672", "018"] {
			v.push(d.repeat(n)[..n].to_string());
		}
		v.push("1".to_string() + &"0".repeat(n - 1));
	}
	for b in [7u32, 8, 15, 16, 30, 31, 32, 33, 53, 63, 64, 127] {
		for n in [(1u128 << b) - 1, 1u128 << b, (1u128 << b) + 1] {
			v.extend([n.to_string(), format!("0{n}")]);
		}
	}
	v.extend((0..130).map(|n| n.to_string()));
	v.extend(dict().numbers.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]).map(|n| n.to_string()));
	v.extend(strings(&["-1", "+1", "1e3", "1.5", "0x1", "1_0", "１", "١", "²", "½", "Ⅳ", "1 2", "a1", "1a", ""]));
	v.sort_by_key(|s| (s.len(), s.clone()));
	v.dedup();
	v
}

/// Constructs of many parts that differ from each other.
fn many_parts(t: bool) -> Vec<String> {
	let mut out = vec![];
	for n in marks(t) {
		let j = |f: &dyn Fn(usize) -> String, sep: &str| (1..=n).map(f).collect::<Vec<_>>().join(sep);
		let rev = |f: &dyn Fn(usize) -> String, sep: &str| (1..=n).rev().map(f).collect::<Vec<_>>().join(sep);
		let row = |w: &str| format!("|{}|", j(&|i| format!("{w}{i}"), "|"));
		let rule = format!("|{}|", j(&|i| ["-", ":-", "-:", ":-:"][i % 4].to_string(), "|"));
		out.push(format!("{}\n{rule}\n{}\n{}", row("h"), row("b"), row("c")));
		out.push(format!("{}\n{rule}\n{}x|\n|c|", row("h"), row("b")));
		out.push(format!("{}\n{rule}\n{}", row("h"), row("").replace(char::is_numeric, "")));
		out.push(format!("{}-|\n{rule}", row("h")));
		out.push(format!("{}\n{rule}-|\na", row("h")));
		out.push(format!("|h|k|\n|-|-:|\n{}", j(&|i| format!("|a{i}|b{i}|"), "\n")));
		out.push(format!("|h|\n|-|\n{}", j(&|i| format!("|a{i}{}|", "|b".repeat(i % 4)), "\n")));
		for m in ["- ", "- [x] ", "1. "] {
			out.push(j(&|i| format!("{m}a{i}"), "\n"));
			out.push(j(&|i| format!("{m}a{i}\n{}b{i}", " ".repeat(i % 5)), "\n"));
			out.push(j(&|i| format!("{}{m}a{i}", " ".repeat(i * 3 % 8)), "\n"));
		}
		out.push(j(&|i| format!("{i}. a{i}"), "\n"));
		out.push(rev(&|i| format!("{i}. a{i}"), "\n\n"));
		out.push(j(&|i| format!("{} a{i}", "#".repeat(i % 8 + 1)), "\n"));
		out.push(j(&|i| format!("# a{i} {{#l{i}}}"), "\n"));
		out.push(j(&|_| "# a {#l}".to_string(), "\n") + "\n\n[t](#l)");
		out.push(j(&|i| format!("[^{i}]"), " ") + "\n\n" + &j(&|i| format!("[^{i}]: n{i}"), "\n"));
		out.push(j(&|i| format!("[^{i}]"), "") + "\n\n" + &rev(&|i| format!("[^{i}]: n{i}"), "\n\n"));
		out.push(j(&|i| format!("[^{i}]: n{i}"), "\n") + "\n\n" + &rev(&|i| format!("[^{i}]"), " "));
		out.push(j(&|i| format!("a{i}[^n]"), " ") + "\n\n[^n]: m");
		out.push("[^n] a\n\n".to_string() + &j(&|i| format!("[^n]: m{i}"), "\n"));
		out.push(j(&|i| format!("[^{i}]"), "\n\n"));
		out.push(j(&|i| format!("[t{i}](u{i} \"h{i}\")"), " "));
		out.push(j(&|i| format!("![t{i}](u{i})<x:{i}><m{i}@n>"), ""));
		out.push(j(&|i| ["*a*", "**b**", "`c`", "~~d~~", "***e***", "\\*", "f"][i % 7].to_string() + &i.to_string(), " "));
		out.push(j(&|i| format!("a{i}{}", ["  ", "\\", "", " "][i % 4]), "\n"));
		out.push(j(&|i| format!("a{i}"), "\n\n"));
		out.push(j(&|i| format!("{} a{i}", ">".repeat(i % 6 + 1)), "\n"));
		out.push(j(&|i| format!("> a{i}"), "\n\n"));
		out.push(j(&|i| format!("```l{i}\nc{i}\n```"), "\n"));
		out.push(j(&|i| format!("    {}c{i}", " ".repeat(i % 3)), "\n"));
		out.push(j(&|i| format!("<details>\n<summary>s{i}</summary>\nb{i}\n</details>"), "\n"));
		out.push(j(&|i| ["---", "a", "", "***", "- b", "", "___", "> c"][i % 8].to_string(), "\n"));
		if n <= 130 {
			out.push(j(&|i| format!("{}- a{i}", "  ".repeat(i - 1)), "\n"));
			out.push(rev(&|i| format!("{}- a{i}", "  ".repeat(i - 1)), "\n"));
			out.push(j(&|i| format!("{} a{i}", ">".repeat(i)), "\n"));
			out.push(rev(&|i| format!("{} a{i}", ">".repeat(i)), "\n"));
			out.push(j(&|i| format!("<details>\n<summary>s{i}</summary>\na{i}"), "\n") + "\n" + &rev(&|i| format!("b{i}\n</details>"), "\n"));
			out.push(j(&|i| ["*", "_", "**", "~~"][i % 4].to_string(), "") + "a" + &rev(&|i| ["*", "_", "**", "~~"][i % 4].to_string(), ""));
			out.push(j(&|i| format!("[a{i} "), "") + &rev(&|i| format!("](u{i})"), ""));
		}
	}
	out
}

/// Documents of the words and numbers that occur in the code.
/// Every construct, with a word or a line in it, in every construct in every construct.
fn constructs() -> Box<dyn Space> {
	let words = strings(&["a", "[^n]: a", "- [x] a", "`", "*"]).into_iter().chain(strings(&LINES)).collect::<Vec<_>>();
	let slots = strings(&SLOTS);
	let twice = fill_space(&SLOTS, list("words and lines", words));
	let thrice = fill_space(&SLOTS, list("a", strings(&["a"])));
	let n = (twice.len() * slots.len() as u64, thrice.len() * (slots.len() * slots.len()) as u64);
	let both: Vec<String> = (0..twice.len()).map(|i| twice.get(i)).chain((0..thrice.len()).flat_map(|i| { let x = thrice.get(i); SLOTS.iter().map(move |s| s.replace('X', &x)).collect::<Vec<_>>() })).collect();
	let what = format!("{} constructs with words and lines in them, {} constructs of two and three levels", n.0, n.1);
	Box::new(Fill(slots, list(&what, both), what.clone()))
}

fn code(out: &mut Vec<Campaign>, o: fn() -> Oracle) {
	out.push(c("words of the code in every construct", fill(strings(&SLOTS), code_words(), "every string of the renderer's source, in variants"), o()));
	out.push(c("pairs of words of the code", code_pairs(), o()));
	out.push(c("constructs of many different parts", list("tables, lists, notes, links and others of 1 to 1025 parts", many_parts(false)), o()));
	out.push(c("constructs in constructs in constructs", constructs(), o()));
	out.push(c("numbers of every size", fill(strings(&NUMBERED), digit_words(), "numbers around powers of two and ten, of 1 to 40 digits"), o()));
	out.push(c("sizes of the code", list("constructs of the sizes of the numbers in the renderer's source (those above 1100)", code_large()), o()));
}

const MODEL_RULE: &str = "Every document of the listed spaces is rendered by gfm::Parser::render and by the reference model (mc/src/model.rs); the canonical DOMs must be equal. states: distinct canonical documents (counted by a 30 bit hash, a lower bound); transitions: productions taken by the model; traces: documents rendered by the implementation and compared.";
const MODEL_ASSUME: [&str; 2] = [
	"the reference model says what the documents mean",
	"whitespace between block elements and class, role and rel attributes are not compared",
];

pub fn property(id: &str, tier: &str) -> Option<Property> {
	let t = tier == "thorough";
	let q = |a: u32, b: u32| if t { b } else { a };
	let mut k: Vec<Campaign> = vec![];
	let mut level = "model_checking";
	let mut rule = MODEL_RULE;
	let mut assumptions = MODEL_ASSUME.to_vec();
	match id {
		"C01" => {
			level = "exploration";
			rule = "Every document of the listed spaces is rendered once, on a 2 MB stack, under a watchdog; a panic, a crash or a run of more than 25 s is a violation. distinct_nontrivial: distinct outputs (30 bit hash, a lower bound).";
			assumptions = vec!["25 s for a document of a few kilobytes means rendering does not return"];
			k.push(c("every short text", chars(WIDE, 0, q(4, 5)), total()));
			k.push(c("every short sequence of lines", seq(&LINES, 0, q(3, 4)), total()));
			k.push(c("every character in every construct", slots(unicode(t), "every character"), total()));
			let pairs: Vec<String> = {
				let w = strings(&["é", "€", "𐍈", "\u{a0}", "\u{2028}", "\0", "\r", "a", "\u{301}", "\n"]);
				all_of(product_s(vec![w.clone(), strings(&["", "*", "`", "[", "\\", "|", ">", "<", "_", "~", "!", "#", "-"]), w]))
			};
			k.push(c("multi-byte neighbours in every construct", slots(pairs, "pairs of characters of every length around every marker"), total()));
			k.push(c("long runs", list("every fragment repeated 1 to 300 (1500) times, with every ending", repeats(&FRAGS, &sizes(t), &["", "a", "\n", "*", "`", ")", "]", ">", "|"])), total()));
			let two: Vec<String> = {
				let n: &[usize] = if t { &[2, 17, 101, 256, 600] } else { &[2, 101, 256] };
				let mut v = vec![];
				for a in FRAGS {
					for b in FRAGS {
						for &n in n {
							v.push(format!("{a}{b}").repeat(n));
							v.push(a.repeat(n) + &b.repeat(n));
						}
					}
				}
				v
			};
			k.push(c("long runs of two fragments", list("every pair of fragments, alternating and one after the other, 2 to 256 (600) times", two), total()));
			k.push(c("deep nesting", list("lists, quotes, details and mixtures of them nested 1 to 300 (600) deep", deep(if t { 600 } else { 300 })), total()));
			k.push(c("very deep nesting", list("everything that nests within a line, and all pairs, 1000 to 20000 (100000) deep; sections 1000 deep", abyss(t)), total()));
			k.push(c("large documents cut anywhere", list("every prefix and suffix of 4 documents", cuts()), total()));
			k.push(c("large documents with insertions", list("every insertion of one symbol into 4 documents", inserts()), total()));
			k.push(c("constructs of every size", pumped(t), total()));
			k.push(c("constructs of every number of words and lines", pumped_to(t), total()));
			k.push(c("runs of lines", runs(t), total()));
			k.push(c("runs of every symbol", symbol_runs(t), total()));
			k.push(c("unequal runs of delimiters", unequal_runs(t), total()));
			k.push(c("every pair of characters in every construct", ascii_pairs(), total()));
			k.push(c("every construct at many depths", depths(t, &["a", "é*`"]), total()));
			code(&mut k, total);
			k.push(c("details", seq(&["<details>\n", "<details>", "<summary>s</summary>\n", "<summary>", "</summary>", "</details>", "\n", "x", " "], 0, q(6, 7)), total()));
		}
		"C02" => {
			level = "exploration";
			rule = "Every document of the listed spaces is rendered and read by a strict HTML reader; only the elements, attributes and attribute values of Markdown constructs may occur, every ampersand must be a reference, and (model campaigns) the decoded text and attribute values must be those of the reference model. distinct_nontrivial: distinct outputs of documents with HTML characters.";
			let o = || both(safe(), model());
			let payload = "<>&\"'a;/! =-\\`#x";
			k.push(c("markup characters in every construct", fill_space(&SLOTS, chars(payload, 0, q(3, 4))), o()));
			let hot = ["<script>", "</p>", "</a>", "</code>", "\" onx=\"", "' onx='", "&lt;", "&#60;", "&amp;", "<!--", "-->", "<a href=\"x\">", "javascript:", "a", " ", "\n", ">", "\\<", "\\\"", "\\&", "<b/>", "=\"", "<img src=x onerror=y>", "]]>", "\u{0}", "<details>", "</summary>", "é", "%3C", "&quot;"];
			k.push(c("tags, attributes and references in every construct", fill_space(&SLOTS, seq(&hot, 0, q(2, 3))), o()));
			k.push(c("every short text", chars(ALL, 0, q(4, 5)), safe()));
			k.push(c("every short text of markup", chars("<>&\"'a;=\n*`[](|", 0, q(5, 6)), o()));
			k.push(c("every character in every construct", slots(unicode(t), "every character"), o()));
			k.push(c("markup in nested places", nested(&NEST, &PLACES, fill_space(&SLOTS, list("8 payloads", strings(&["<i>", "\"", "&", "&lt;", "'", "<", ">", "\"'<&>"])))), o()));
			k.push(c("every short sequence of lines", seq(&LINES, 0, 3), safe()));
			k.push(c("large documents with insertions", list("every insertion of one symbol into 4 documents", inserts()), o()));
			k.push(c("constructs of every size", pumped(t), o()));
			k.push(c("constructs of every number of words and lines", pumped_to(t), o()));
			k.push(c("runs of every symbol", symbol_runs(t), o()));
			k.push(c("unequal runs of delimiters", unequal_runs(t), o()));
			k.push(c("markup after text of every length", Box::new(Pump(SLOTS.iter().map(|s| s.replace('X', "X<b>\"&amp;'")).collect(), strings(&["a", "é", "a ", "a\n", "&"]), marks(t))), o()));
			k.push(c("every pair of characters in every construct", ascii_pairs(), o()));
			k.push(c("every construct at many depths", depths(t, &["<b>\"&amp;'"]), o()));
			k.push(c("tags and references of HTML in every construct", fill(strings(&SLOTS), html_words(), "tags of all elements, references of all kinds"), o()));
			code(&mut k, || both(safe(), model()));
		}
		"C03" => {
			level = "exploration";
			rule = "Every document of the listed spaces is rendered; every href and src, decoded and normalised as browsers do, must not have a scheme that runs code, and the document must be what the reference model says (the refused link as text). distinct_nontrivial: distinct outputs of documents with a colon.";
			assumptions = vec!["schemes that run code: javascript, and data unless image/ (or the empty image data:,)"];
			let o = || both(safe_urls(), model());
			let spots: Vec<&str> = vec![
				"[t](X)", "![t](X)", "<X>", "[t](X \"ti\")", "![t](X 'ti')", "[t](<X>)", "# [t](X)", "- ![t](X)", "> <X>",
				"| [t](X) | <X> |\n|-|-|\n| ![t](X) | b |", "[t]( X)", "[t](X )", "[X](X)", "[^n]\n\n[^n]: [t](X)", "<details>\n<summary><X></summary>\n<X>\n</details>", "*[t](X)*",
			];
			k.push(c("every letter case", fill_space(&spots, list("all spellings of javascript: and data: in upper and lower case", cases())), o()));
			k.push(c("junk at every position", fill_space(&spots, list("every one or two blanks, controls, escapes or references at every position of a scheme", junk(t))), o()));
			let parts = ["java", "script", "JAVA", "Script", ":", "data", "DATA", "image/", "text/html,", "/", "@", "\\", " ", "\t", "\n", "&#58;", "&colon;", "%3A", "x", "\u{1}", "mailto:", "#", "?", "//"];
			k.push(c("every sequence of pieces", fill_space(&spots[..8], seq(&parts, 0, q(3, 4))), o()));
			k.push(c("every short target", fill_space(&["[t](X)", "![t](X)", "<X>"], chars_in("", "aJ:@/\\ \t&;%#?.", 0, q(4, 5), "")), o()));
			let after = ["", "x", "alert(1)", "//x", "x@y", "@", "x@y.z\\", "image/", "image/svg", "image", " image/", "Image/x", "text/html,x", ";image/", "/image/", ",image/", ",", ",x", "%00", "\\"];
			let before = ["", " ", "\t", "\n", "\u{1}", "\\", "&Tab;", "/", "./", "x", "a@", "mailto:", "http:", "é", "\u{a0}", "\u{feff}", "\u{200b}", "%20", "<", "("];
			let schemes = ["javascript", "data", "JavaScript", "DATA", "vbscript", "javascript ", "java\\script", "java&Tab;script", "java\tscript", "javascript\u{0}", "ja%76ascript", "javaſcript"];
			let colons = [":", "::", "\\:", "&colon;", "&#58;", "&#x3a;", "%3A", "：", " :", ":\t", ":\n", ":\\"];
			k.push(c("every scheme, separator, prefix and rest", fill_space(&spots, product(&[&before, &schemes, &colons, &after])), safe_urls()));
			k.push(c("the same, against the model", fill_space(&spots[..6], product(&[&before, &schemes, &colons, &after])), model()));
			k.push(c("every short text", chars(ALL, 0, q(3, 4)), safe_urls()));
			let tgt = all_of(product(&[&["javascript", "JAVASCRIPT", "data", "Data"], &[":"], &["alert(1)", "text/html,x", "image/png,x", ""]]));
			k.push(c("in nested places", nested(&PLACES, &PLACES, fill(strings(&["[t](X)", "![t](X)", "<X>"]), tgt, "16 targets")), o()));
			k.push(c("at many depths", depths(t, &["javascript:x", "data:x", "[l](JavaScript:x)"]), o()));
			let d = dict();
			let w: Vec<String> = d.words.iter().chain(&d.chars).flat_map(|w| ["javascript:W", "javascript:xW", "javascript:x@W", "javascript:W@x", "Wjavascript:x", "W:javascript:x", "jaWvascript:x", "javascriptW:x", "data:W", "data:xW", "Wdata:x", "data:Wimage/", "dataW:x", "JavaScript:W//x", "W:x", "WW:x"].map(|t| t.replace('W', w))).collect();
			k.push(c("words of the code in targets", fill_space(&spots, list("every string of the renderer's source in and around schemes", w)), o()));
			let far = strings(&["[t](javascript:X)", "![t](data:X)", "<javascript:X>", "<data:X>", "[X](javascript:x)", "![X](data:x)", "[t](javascript:x \"X\")", "![t](data:x 'X')", "X [t](javascript:x)", "[t](javascript:x) X", "[t](data:X,image/png)", "[t](data:image/X)", "[t](javascript:X@x)", "[t](javascript:x@X)", "<javascript:X@x>", "[t](X:javascript:x)", "[t](javascript:xX)", "[t](jXavascript:x)"]);
			k.push(c("targets of every length", Box::new(Pump(far, strings(&["x", "/", "%41", ":", "@", "#a", "&", "é", "a "]), marks(t))), o()));
			code(&mut k, || both(safe_urls(), model()));
		}
		"C04" => {
			level = "exploration";
			rule = "Every document of the listed spaces is rendered and read by a strict HTML reader that demands proper nesting and a content model for every element (blocks only in blocks, text only in paragraphs, headings, cells and summaries, items only in lists, cells only in rows). distinct_nontrivial: distinct sequences of elements.";
			assumptions = vec![];
			k.push(c("every short text", chars(ALL, 0, q(4, 5)), well_formed()));
			k.push(c("every sequence of lines", seq(&LINES, 0, q(3, 4)), well_formed()));
			let core = ["a\n", "\n", "# h\n", "- a\n", "1. b\n", "- [x] t\n", "> q\n", ">> q\n", "```\n", "    code\n", "---\n", "|a|\n|-|\n|b|\n", "<details>\n<summary>s</summary>\n", "</details>", "[^n]: x\n", "  c\n", "a  \n"];
			k.push(c("every sequence of blocks", seq(&core, 0, q(5, 6)), well_formed()));
			k.push(c("every pair of blocks in nested places", nested(&NEST, &NEST, seq(&core, 0, q(2, 3))), well_formed()));
			k.push(c("every sequence of lines in places", places(&PLACES, seq(&LINES, 0, q(2, 3))), well_formed()));
			k.push(c("every sequence of inline markers in every construct", fill_space(&SLOTS, seq(&["a", " ", "\n", "*", "**", "`", "[", "](u)", "<", ">", "!", "~~", "|", "\\", "  \n", "- ", "# "], 0, q(3, 4))), well_formed()));
			k.push(c("large documents cut anywhere", list("every prefix and suffix of 4 documents", cuts()), well_formed()));
			k.push(c("large documents with gaps", list("every removal of 1 to 3 characters", gaps()), well_formed()));
			k.push(c("large documents with insertions", list("every insertion of one symbol into 4 documents", inserts()), well_formed()));
			k.push(c("deep nesting", list("lists, quotes and details nested 1 to 300 deep", deep(300)), well_formed()));
			k.push(c("every character in every construct", slots(unicode(false), "every character"), well_formed()));
			k.push(c("constructs of every size", pumped(t), well_formed()));
			k.push(c("constructs of every number of words and lines", pumped_to(t), well_formed()));
			k.push(c("runs of lines", runs(t), well_formed()));
			k.push(c("runs of every symbol", symbol_runs(t), well_formed()));
			k.push(c("unequal runs of delimiters", unequal_runs(t), well_formed()));
			k.push(c("every pair of characters in every construct", ascii_pairs(), well_formed()));
			k.push(c("every construct at many depths", depths(t, &["a", "*a\n\nb"]), well_formed()));
			code(&mut k, well_formed);
			k.push(c("which text is in which block: lines", seq(&LINES, 0, q(3, 4)), skeleton()));
			k.push(c("which text is in which block: blocks", seq(&core, 0, q(4, 5)), skeleton()));
			k.push(c("which text is in which block: nested places", nested(&NEST, &NEST, seq(&core, 0, 2)), skeleton()));
			k.push(c("which text is in which block: many depths", depths(t, &["a"]), skeleton()));
			k.push(c("which text is in which block: runs of lines", runs(t), skeleton()));
		}
		"C05" => {
			level = "exploration";
			rule = "Documents are sequences of words (each of them unique), whitespace and markers; in the HTML every word must be found exactly once, in order, in the text or else in an attribute, and apart from its neighbours if whitespace was between them. Model campaigns also demand that what forms no construct is shown as typed. distinct_nontrivial: distinct outputs of documents with words.";
			let w = |s: Box<dyn Space>| map(s, "with unique words", number_words);
			let m1 = ["q", " ", "\n", "*", "_", "**", "~~", "`", "[", "]", "(", ")", "<", ">", "!", "#", "- ", "1. ", "|", "\\", "\"", "\t", "  \n", "{#", "}", ":"];
			k.push(c("every sequence of words and markers", w(seq(&m1, 0, q(4, 5))), words()));
			let m2 = ["q", "q q", " ", "\n", "*", "`", "[", "](", ")", "<", ">", "> ", "- ", "\\", "~~", "  \n"];
			k.push(c("longer sequences", w(seq(&m2, 0, q(5, 6))), words()));
			let m3 = ["q", "q\n", "\n", "# q\n", "# q {#q}\n", "- q\n", "  q\n", "1. q\n", "- [ ] q\n", "> q\n", ">> q\n", "```\n", "    q\n", "| q | q |\n", "|-|-|\n", "<details>\n", "<summary>q</summary>\n", "</details>", "</details> q\n", "*q\n", "q*\n", "`q\n", "[q\n", "q](q)\n", "q  \n", "q\\\n", "---\n", "<q\n", "####### q\n", "| q\n", "12345678901. q\n", "-q\n", "![q](q \"q\") q\n", "[q](q 'q') q\n", "<http://q> q\n", "\tq\n"];
			k.push(c("every sequence of lines", w(seq(&m3, 0, q(4, 5))), words()));
			k.push(c("in nested places", w(nested(&NEST, &PLACES, seq(&m3, 1, q(2, 3)))), words()));
			k.push(c("every construct, cut anywhere", w(list("every prefix and suffix of documents of words", word_cuts())), words()));
			k.push(c("unfinished constructs", fill_space(&["X", "a X b", "# X", "- X", "> X", "| X | b |\n|-|-|\n| c | d |", "X\n\nb", "X\nb"], seq(&["*", "**", "_", "~~", "~", "`", "``", "[", "]", "(", ")", "](", "![", "<", ">", "a", " ", "\\", "\"", "[^", "{#", "}", "|", "http:"], 0, q(3, 4))), model()));
			k.push(c("words around every character", fill_space(&["qX", "Xq", "q X q", "qXq", "# q X", "- X q", "| X | q |\n|-|-|\n| q X | b |"], list("every character", unicode(t))), words_numbered()));
			k.push(c("every short text", chars(ALL, 0, q(3, 4)), model()));
			k.push(c("constructs of every number of words and lines", pumped_to(t), model()));
			k.push(c("constructs of every size", pumped(t), model()));
			k.push(c("constructs of words of every size", w(Box::new(Pump(SLOTS.iter().filter(|s| !s.contains("[^")).map(|s| s.to_string()).collect(), strings(&["q ", "q", "q\n", "*q* ", "q  \n", "\\q ", "q* "]), marks(t)))), words()));
			k.push(c("runs of lines", runs(t), model()));
			k.push(c("runs of every symbol", symbol_runs(t), model()));
			k.push(c("unequal runs of delimiters", unequal_runs(t), model()));
			k.push(c("every pair of characters in every construct", ascii_pairs(), model()));
			k.push(c("every construct at many depths", depths(t, &["a"]), model()));
			k.push(c("every character in every construct", slots(unicode(t), "every character"), model()));
			code(&mut k, model);
		}
		"C06" => {
			let ind = ["", " ", "   ", "    ", "\t"];
			let hashes = ["#", "##", "###", "####", "#####", "######", "#######", "########", "\\#", "a #", "\\##"];
			let sep = ["", " ", "  ", "\t", " \t"];
			let text = ["", "a", "a b", "*a*", "`#`", "\\#", "#a", "a#", "[t](u)", "a\\", "é", "1. a"];
			let close = ["", " #", " ##  ", " #######", "\t#", " \\#", "#", " # b", " #\t", " # #"];
			let label = ["", " {#l}", "{#l m}", " {#l} ", " {#}", " {l}", " {#a{#b}", " {#é\"}", " \\{#l}"];
			k.push(c("every heading line", product(&[&ind, &hashes, &sep, &text, &close, &label]), model()));
			k.push(c("every level and text in nested places", nested(&PLACES, &PLACES, product(&[&["", "   "], &["#", "###", "######", "#######"], &[" ", "\t"], &["a", "*a* b", ""], &["", " #"], &["", " {#l}"]])), model()));
			k.push(c("every short text over heading symbols", chars("# a\\\t{}\n*", 0, q(6, 7)), model()));
			k.push(c("every short text after a marker", chars_in("## ", "# a\\`{}\t*é", 0, q(6, 7), "\nz"), model()));
			k.push(c("inline content", fill_space(&["# X", "###### X #", "## X {#l}", "# a X b\nc"], seq(&["a", " ", "*", "**", "_", "`", "~~", "[", "](u)", "<http:", ">", "!", "\\", "|", "#", "&"], 0, q(4, 5))), model()));
			k.push(c("headings between all lines", map(seq(&LINES, 2, q(2, 3)), "with a heading between and around them", |s| s.split_inclusive('\n').fold("# y".to_string(), |a, l| a + "\n" + l + "## z {#w}")), model()));
			k.push(c("every character in a heading", fill(strings(&["# X", "# aXb", "#X", "# a X#", "# a {#X}", "X# a", "# X #"]), unicode(t), "every character"), model()));
			common(&mut k, t);
		}
		"C07" => {
			let li = ["- a\n", "+ b\n", "* c\n", "1. d\n", "2. e\n", "007. f\n", "- [ ] g\n", "- [x] h\n", "* [X] i\n", "\n", "  - j\n", "    - k\n", "  1. l\n", "   - m\n", "     n\n", "  o\n", "p\n", "-\n", "1.\n", "  \n"];
			k.push(c("every sequence of items and lines", seq(&li, 0, q(4, 5)), model()));
			let li2 = ["- a\n", "1. b\n", "  - c\n", "    d\n", "  e\n", "\n", "- [x] f\n", "  > g\n", "      - h\n", "\ti\n"];
			k.push(c("longer sequences", seq(&li2, 0, q(6, 7)), model()));
			k.push(c("every short text over list symbols", chars("- a1.\n", 0, q(8, 9)), model()));
			k.push(c("every short text with boxes", chars_in("- ", "[]xX a\n-", 0, q(6, 7), ""), model()));
			k.push(c("every short text over bullets and tabs", chars("-+*\ta\n ", 0, q(7, 8)), model()));
			let ind: Vec<String> = (0..=9).map(|n| " ".repeat(n)).chain(strings(&["\t", " \t", "  \t", "\t\t"])).collect();
			let mark = strings(&["- a", "10. b", "* ", "+\tc", "- [ ] d", "e", "> f", "```\ng\n```", "# h", "| i |\n|-|\n| j |"]);
			k.push(c("every indentation of every block below every item", product_s(vec![strings(&["- x\n", "1. x\n", "10. x\n", "123456789. x\n", "- [x] x\n", " - x\n", "   1. x\n", "-\tx\n", "-   x\n"]), strings(&["", "\n", "\n\n"]), ind.clone(), mark.clone(), strings(&["", "\n- z", "\n  z", "\n\n  z"])]), model()));
			k.push(c("three levels of every indentation", product_s(vec![strings(&["- x\n"]), ind.clone(), strings(&["- y\n", "1. y\n", "y\n"]), ind.clone(), strings(&["- z\n", "2. z\n", "z\n", "- [x] z\n"]), ind.clone(), strings(&["w", "- w"])]), model()));
			k.push(c("items in every variant", product_s(vec![strings(&["", " ", "   ", "    "]), strings(&["-", "+", "*", "1.", "2.", "10.", "1)"]), strings(&["", " ", "  ", "\t", "     "]), strings(&["", "[ ]", "[x]", "[X]", "[y]", "[]", "[  ]", "\\[x]", "[x", "x]"]), strings(&["", " ", "  ", "\t"]), strings(&["", "a", "*a*", "- a", "[x] a"]), strings(&["", "\n- [X] b", "\n+ c", "\n  d", "\n\n  - [x] e"])]), model()));
			k.push(c("blocks below numbers of every width", list("every construct in items with numbers of 1 to 12 digits", numbered_blocks()), model()));
			k.push(c("every number", list("every number of 1 to 12 digits of every pattern, in every position", numbers()), model()));
			k.push(c("long and deep lists", list("1 to 130 items and levels of every kind", long_lists()), model()));
			k.push(c("in nested places", nested(&NEST, &PLACES, seq(&["- a\n", "1. b\n", "  - c\n", "- [x] d\n", "\n", "  e\n"], 1, q(3, 4))), model()));
			k.push(c("items around all lines", map(seq(&LINES, 1, q(2, 3)), "after and before items", |s| format!("- y\n{s}- z\n")), model()));
			k.push(c("lines inside items", places(&[ITEM, NUMBER, TASK, DEEP], seq(&LINES, 1, q(2, 3))), model()));
			common(&mut k, t);
		}
		"C08" => {
			let lv = ["> a\n", ">> b\n", ">>> c\n", ">>>> d\n", ">e\n", "f\n", "\n", ">\n", ">>\n", " > g\n", "   >h\n", "    > i\n", "> > j\n", "\\> k\n", "l > m\n"];
			k.push(c("every sequence of quoted lines", seq(&lv, 0, q(5, 6)), model()));
			let ct = ["> - a\n", ">   b\n", "> 1. c\n", "> # d\n", "> ```\n", "> e\n", ">     f\n", "> | g |\n", "> |-|\n", ">\n", "> *h\n", "> i*\n", ">> j\n", "\n", "k\n", ">\tl\n", "> <details>\n", "> <summary>s</summary>\n", "> </details>\n"];
			k.push(c("every sequence of quoted blocks", seq(&ct, 0, q(4, 5)), model()));
			for n in [2, 3, 5] {
				k.push(c(&format!("every sequence of quoted blocks, {n} levels"), map(seq(&ct, 0, q(3, 4)), &format!("with every arrow {n} times"), move |s| s.replace('>', &">".repeat(n)).replace(&format!("{}\n", "details".to_string() + &">".repeat(n)), "details>\n").replace(&format!("summary{}", ">".repeat(n)), "summary>")), model()));
			}
			let arrows = |i: &[&str], a: &[&str], w: &[&str], x: &[&str]| all_of(product(&[i, a, w, x, &["\n"]]));
			let far = arrows(&["", " ", "  ", "   ", "    "], &[">", ">>", ">>>", "> >"], &["", " ", "  ", "\t"], &["a", "", "- a", "# a"]);
			k.push(c("every pair of quoted lines in every variant", product_s(vec![far.clone(), strings(&["", "\n", "b\n"]), far]), model()));
			let near = arrows(&["", "  ", "   "], &[">", ">>", ">>>"], &["", " "], &["a", "", "    a", "*a"]);
			k.push(c("three quoted lines in every variant", product_s(vec![near.clone(), near.clone(), near]), model()));
			k.push(c("every short text over quote symbols", chars("> a\n-`", 0, q(7, 8)), model()));
			k.push(c("every short text with tabs", chars(">\ta\n ", 0, q(7, 8)), model()));
			k.push(c("every level", list("levels 1 to 300 and pairs of levels", levels()), model()));
			k.push(c("every line inside quotes", places(&[QUOTE, QUOTE2, DEEP], seq(&LINES, 1, q(2, 3))), model()));
			k.push(c("quotes around all lines", map(seq(&LINES, 1, q(2, 3)), "after and before quotes", |s| format!("> y\n{s}> z\n")), model()));
			k.push(c("in nested places", nested(&NEST, &NEST, seq(&["> a\n", ">> b\n", ">\n", "c\n", "\n", "> - d\n"], 1, q(3, 4))), model()));
			k.push(c("every character in a quote", fill(strings(&["> X", ">X", ">> aXb", "X> a", ">X\n> b", "> > X"]), unicode(t), "every character"), model()));
			common(&mut k, t);
		}
		"C09" => {
			let cell = ["a", "", " ", "*b*", "`c`", "\\|", "d\\", "é", "[e](f)", "\\\\"];
			let row = |n: usize, ends: &[&str]| -> Vec<String> {
				let mut v = vec![];
				let mut parts: Vec<Vec<String>> = vec![strings(&["|"])];
				for i in 0..n {
					if i > 0 {
						parts.push(strings(&["|"]));
					}
					parts.push(strings(&cell));
				}
				parts.push(strings(ends));
				v.extend(all_of(product_s(parts)));
				v
			};
			let delim = ["|-|-|\n", "|:-|-:|\n", "|:-:|--\n", "| - | :--- |\n", "|-|\n", "|-|-|-|\n", "|:|-|\n", "|-|a|\n", "||-|\n", "-|-\n"];
			k.push(c("every two-column table", product_s(vec![row(2, &["|\n", "\n"]), strings(&delim), row(2, &["|\n", ""])]), model()));
			k.push(c("every one-column table", product_s(vec![row(1, &["|\n", " | \n", "\n"]), strings(&["|-|\n", "|:-:|\n", "|-\n", "|--:\n", "|-|-|\n"]), row(1, &["|\n", "\n"]), row(1, &["|", "|\nz", "|\n\nz"])]), model()));
			let align = strings(&["-", ":-", "-:", ":-:", "--", ":", "", " --- "]);
			k.push(c("every alignment of three columns", product_s(vec![strings(&["|a|b|c|\n|", " |a|b|c\n|"]), align.clone(), strings(&["|"]), align.clone(), strings(&["|"]), align.clone(), strings(&["|\n", "\n"]), strings(&["|d|e|f|", "|d||f|\n|g|h|i|", "||||"])]), model()));
			let lines = ["|a|b|\n", "|-|-|\n", "|:-:|-:|\n", "|c|d|\n", "|e|\n", "| f | g\n", "h\n", "\n", "|\n", "  |i|j|\n", "||k|\n", "l|m\n"];
			k.push(c("every sequence of rows", seq(&lines, 0, q(5, 6)), model()));
			k.push(c("every short text over table symbols", chars("|-:a\n\\ ", 0, q(7, 8)), model()));
			k.push(c("every body", chars_in("|a|b|\n|-|-|\n|", "|a \n\\`*", 0, q(6, 7), ""), model()));
			k.push(c("every header", chars_in("|", "|a \n\\-:", 0, q(6, 7), "|\n|-|-|\n|c|d|"), model()));
			k.push(c("every size", list("1 to 40 columns by 1 to 12 rows, with an odd cell in every position", table_sizes()), model()));
			k.push(c("inline content of cells", fill_space(&["|X|b|\n|-|-|\n|c|d|", "|a|b|\n|-|:-:|\n|c|X|", "|a|b|\n|-|-|\n|X|d|\n|e|f|"], seq(&["a", " ", "*", "**", "_", "`", "~~", "[", "](u)", "<http:", ">", "!", "\\", "\\|", "#", "- "], 0, q(4, 5))), model()));
			k.push(c("tables next to all lines", map(seq(&LINES, 1, 2), "before and after a table", |s| format!("{s}|a|b|\n|-|-:|\n|c|d|\n{s}")), model()));
			k.push(c("in nested places", nested(&PLACES, &PLACES, list("7 tables", strings(&["|a|b|\n|-|-:|\n|c|d|", "|a|\n|-|\n|b|\n|c|", "| a | b |\n|:-:|---|\n| | x |", "|a|b|\n|-|-|", "|a|\n|-|-|\n|b|", "|a\\|b|\n|-|\n|`c`|", "|a|b|\n|-|-|\n|c|d|\nz"]))), model()));
			k.push(c("every character in a cell", fill(strings(&["|X|b|\n|-|-|\n|c|aXd|", "|a|b|\n|X-|-|\n|c|d|", "|a|b|\n|-|-|X\n|c|d|", "|a|b|\n|-|-|\n|c|d|X", "X|a|b|\n|-|-|\n|c|d|"]), unicode(t), "every character"), model()));
			common(&mut k, t);
		}
		"C10" => {
			k.push(c("every short text over * and _", chars("a *_\\\n", 0, q(8, 9)), model()));
			k.push(c("every short text over ~", chars("a ~\n\\*", 0, q(8, 9)), model()));
			k.push(c("every short text over underscores and words", chars("aé_1.* -", 0, q(6, 7)), model()));
			let f = ["*", "**", "***", "****", "_", "__", "___", "~~", "~", "~~~", "a", "b c", " ", "\n", "\n\n", "\n- ", "\n# ", "\n> ", "`", "[", "](u)", "\\"];
			k.push(c("every sequence of delimiters", seq(&f, 0, q(4, 5)), model()));
			let d = ["*", "**", "***", "_", "__", "___", "~~", "****", "~", "*_", "_*"];
			let inner = ["a", "a b", "", " a", "a ", "\\*", "a\\_b", "a*b", "a_b", "é", "a\nb", "a\n\nb", "`c`", "\u{a0}a", "a\\", "<", "a\n- b", "a\n# b", "1", "a\n| b", "a\n2. b"];
			let outer = ["", "x", " ", "é", "1", ".", "*", "_", "\\", "(", "\n"];
			k.push(c("every pair of delimiters, content and surroundings", product(&[&outer, &d, &inner, &d, &outer]), model()));
			k.push(c("two spans", product(&[&d[..8], &["a", "a b", ""], &d[..8], &["", " ", "x", "\n"], &d[..8], &["b", " c"], &d[..8]]), model()));
			k.push(c("in nested places and constructs", nested(&PLACES, &PLACES, fill(strings(&["X", "# X", "- a X b"]), all_of(product(&[&d[..7], &["a", "a b", " a"], &d[..7]])), "all pairs of delimiters")), model()));
			k.push(c("every character inside and next to delimiters", fill(strings(&["*X*", "_X_", "**aX**", "__Xa__", "X*a*", "X_a_", "_a_X", "*a*X", "~~X~~", "X~~a~~X", "***X***", "a\\X*b*"]), unicode(t), "every character"), model()));
			k.push(c("long runs", list("delimiter runs of 1 to 300 around text", repeats(&["*", "_", "~", "*a*", "_a_ ", "~~a~~", "**a**b", "*a "], &sizes(t), &["", "a", "a*", "a**", "a_", "a~~"])), model()));
			common(&mut k, t);
		}
		"C11" => {
			let spots = ["[t](X)", "![t](X)", "[t](X \"ti\")", "<http:X>", "<X>", "[t](http://a/X)", "a [t](X) b", "[t](mailto:X)", "[t](X 'ti')x"];
			let asc: Vec<String> = (0x21..0x7fu8).map(|b| (b as char).to_string()).collect();
			k.push(c("every pair of target characters", fill_space(&spots, product_s(vec![strings(&["", "a", "#", "/"]), asc.clone(), asc.clone()])), model()));
			k.push(c("every target character in every position", fill_space(&spots, product_s(vec![strings(&["", "a", "a.b/", "http:", "https://x/", "x@y", "?a=b", "ab+c:", "#f"]), unicode(t), strings(&["", "z", "@z", "/z:y", ":8/"])])), both(safe(), model())));
			let pieces = ["a", "b.c", "/", "//", ":", "@", "#", "?", "&", "=", "%20", "\\", ".", "http", "mailto", "irc", "x-y", "1", "(", "[", "]", "'", "\"", "é", "averyveryverylongschemename.of-33+"];
			k.push(c("every sequence of target pieces", fill_space(&spots[..6], seq(&pieces, 0, q(3, 4))), model()));
			k.push(c("every text", fill_space(&["[X](u)", "![X](u)", "[X](u \"v\")", "![X](", "[a](u)X[b](v)"], seq(&["a", " ", "*", "`", "[", "]", "\\", "\\]", "\\[", "(", "\n", "\n\n", "!", "<", "&", "\"", "^", "é"], 0, q(4, 5))), model()));
			k.push(c("every title", fill_space(&["[t](u \"X\")", "[t](u 'X')", "![t](u \"X\")", "[t](u X)", "[t](uX"], seq(&["a", " ", "\"", "'", "\\", "\\\"", ")", "(", "\n", "\n\n", "&", "<", "]", "é", "\n- "], 0, q(4, 5))), model()));
			k.push(c("every short text over link symbols", chars("a[]()! \\", 0, q(7, 8)), model()));
			k.push(c("every short text after an opening bracket", chars_in("[a", "a](\" \n)'<", 0, q(6, 7), ""), model()));
			k.push(c("every short autolink", chars_in("<", "ah:/@.> <\\", 0, q(6, 7), ""), model()));
			let link = ["[a](b)", "![a](b)", "<http://a>", "<a@b.c>", "[a]", "[a](", "![", "[a](b \"c\")", "[](", "[]()"];
			k.push(c("two in a row", product(&[&link, &["", " ", "x", "\n", "*", "`", "[", "!", "\\"], &link, &["", "]", ")", "](v)", "*"]]), model()));
			k.push(c("in nested places and constructs", nested(&PLACES, &PLACES, fill(strings(&["X", "# X", "a X b", "| X | b |\n|-|-|\n| c | X |"]), strings(&link), "10 links")), model()));
			let lens: Vec<String> = (1..=40).flat_map(|n| [format!("{}:x", "a".repeat(n)), format!("{}:x", "a/".repeat(n)), format!("x?{}:y", "b".repeat(n)), "a".repeat(n), format!("{}@b", "a".repeat(n))]).collect();
			k.push(c("schemes and paths of every length", fill(strings(&spots), lens, "schemes and paths of 1 to 40 characters"), model()));
			common(&mut k, t);
		}
		"C12" => {
			let al = "a `\\*<&\t\n";
			k.push(c("every fenced content, verbatim", chars(al, 0, q(5, 6)), verbatim_fence()));
			k.push(c("every indented content, verbatim", chars(al, 0, q(5, 6)), verbatim_indent()));
			k.push(c("every span content, verbatim", chars("a `\\*<&[|", 0, q(5, 6)), verbatim_span()));
			k.push(c("every character, verbatim", list("every character alone and between others", unicode(t).into_iter().flat_map(|u| [u.clone(), format!("a{u}b"), format!(" {u} {u}"), format!("a\n{u}\nb")]).collect()), {
				let (a, b) = (verbatim_fence(), verbatim_indent());
				both(both(a, b), verbatim_span())
			}));
			let fl = ["```\n", "````\n", "`````\n", "``\n", "```rs\n", "``` rs x\n", "```a`\n", " ```\n", "   ````\n", "    ```\n", "a\n", "\n", " b\n", "    c\n", "\td\n", "``` \n", "*e*\n", "<f>\n", "```\\*\n"];
			k.push(c("every sequence of fences and lines", seq(&fl, 0, q(4, 5)), model()));
			let ind: Vec<String> = (0..=5).map(|n| " ".repeat(n)).chain(strings(&["\t", " \t"])).collect();
			let ticks = strings(&["```", "````", "``````"]);
			k.push(c("every indentation and length of fences", product_s(vec![ind.clone(), ticks.clone(), strings(&["\n", "x\n", " y z\n"]), ind.clone(), strings(&["a", "`", "\\"]), strings(&["\n"]), ind.clone(), ticks.clone(), strings(&["", " ", "x", "\nb", "\n\n# c"])]), model()));
			k.push(c("every short text over backticks", chars("a` \\\n-", 0, q(7, 8)), model()));
			k.push(c("every short text over spans and blocks", chars("`a \n#>", 0, q(7, 8)), model()));
			k.push(c("every short indented text", chars_in("    ", "a \t\n\\*", 0, q(6, 7), ""), model()));
			let il = ["    a\n", "     b\n", "\tc\n", "  \td\n", "\n", "      \n", "e\n", "   f\n", "# g\n", "        h\n", "\t\ti\n", "- j\n", "> k\n"];
			k.push(c("every sequence of indented lines", seq(&il, 0, q(5, 6)), model()));
			k.push(c("in nested places", nested(&PLACES, &PLACES, list("12 code blocks and spans", strings(&["```\na\n\n b\n```", "````x\n```\n````", "    a\n\n     b", "`a`", "`` ` ``", "` a `", "```\n*a* <b> &amp;\n```", "\ta\tb", "```\n\ta\n```", "` `", "`a\nb`", "```\n    a\n```"]))), model()));
			k.push(c("long runs", list("runs of 1 to 300 backticks", repeats(&["`"], &sizes(t), &["", "a`", "a``", "\na\n```", "\na", " a"]).into_iter().chain((1..=20).flat_map(|a| (1..=20).map(move |b| format!("{}\nx\n{}\ny", "`".repeat(a), "`".repeat(b))))).chain((1..=20).flat_map(|a| (1..=20).map(move |b| format!("a {}x{} y", "`".repeat(a), "`".repeat(b))))).collect()), model()));
			common(&mut k, t);
		}
		"C13" => {
			let mut tpl: Vec<String> = SLOTS.iter().map(|s| s.replace('X', "\\X")).collect();
			tpl.extend(SLOTS.iter().map(|s| s.replace('X', "a\\Xb")));
			tpl.extend(SLOTS.iter().map(|s| s.replace('X', "\\\\X")));
			tpl.extend(SLOTS.iter().map(|s| s.replace('X', "\\X\\X")));
			k.push(c("every character after a backslash in every construct", fill(tpl.clone(), unicode(t), "every character"), model()));
			k.push(c("every escaped character, shown", list("every printable ASCII character, in text of every kind", escaped_docs()), shown_escapes()));
			k.push(c("every short text over backslashes", chars("\\a*#\n |", 0, q(7, 8)), model()));
			k.push(c("every short text over backslashes and brackets", chars("\\[]()a`_", 0, q(6, 7)), model()));
			k.push(c("escapes that take away block meaning", product(&[&["", "  ", "a\n", "- "], &["\\# a", "\\- a", "\\+ a", "\\* a", "1\\. a", "\\1. a", "\\> a", "\\```\na\n```", "\\| a |\n|-|\n| b |", "\\---", "-\\--", "\\***", "\\<details>\n<summary>s</summary>\n", "\\[^a]: b", "\\[ ] a", "- \\[ ] a", "\\    a", "#\\ a", "\\## a", "\\\\# a"], &["", "\nb", "\n\nb"]]), model()));
			k.push(c("escapes that take away inline meaning", product(&[&["", "a", " "], &["\\", "\\\\", "\\\\\\"], &["*a*", "**a**", "_a_", "~~a~~", "`a`", "[a](b)", "![a](b)", "<http://a>", "[^n]", "a*", "`"], &["", "\\", "b", "\\*"]]), model()));
			k.push(c("every punctuation pair", fill_space(&["X", "*X*", "[X](u)", "| X |\n|-|\n| X |", "# X", "- X", "[t](u \"X\")"], product_s(vec![strings(&["\\"]), punct(), strings(&["", "\\"]), punct()])), model()));
			k.push(c("in nested places", nested(&PLACES, &PLACES, fill(strings(&["\\X", "\\X a", "*a\\Xb*"]), punct(), "every punctuation character")), model()));
			common(&mut k, t);
		}
		"C14" => {
			let o = || both(footnotes(), model());
			let l = ["[^a]\n", "x[^b] y[^a]\n", "[^a]: n\n", "[^b]: m\n", "[^b]: m\n  more\n", "# [^a]\n", "- [^b]\n", "> [^a]\n", "| [^a] |\n|-|\n| [^b] |\n", "\n", "z\n", "[^c]\n", "[^c]:\n", "`[^a]`\n", "\\[^a]\n", "*[^a]* [^b]!\n", "<details>\n<summary>s</summary>\n[^a]\n</details>\n", "[^A]: other\n[^A]\n"];
			k.push(c("every sequence of references and notes", seq(&l, 0, q(4, 5)), o()));
			k.push(c("every short text over footnote symbols", chars("[^a]: \n", 0, q(7, 8)), model()));
			k.push(c("every short text with a note", chars_in("[^a]: n\n[^b]: m\n\n", "[^a]:b(\n", 0, q(6, 7), ""), model()));
			let ids = ["1", "a", "a-b", "a.b", "é", "*", "<", "\"", "a b", "", "^", "fn", "&", "#", "a:b", "10", "_x_"];
			k.push(c("every id and place of the note", product(&[&["", "x "], &["[^I]"], &["\n\n", "\n", " y\n\n", "[^J]\n"], &["", "z\n", "[^J]: k\n"], &["[^I]: n", " [^I]:n", "   [^I]:  n", "[^I] : n", "- [^I]: n", "> [^I]: n"], &["", "\n  m", "\n m", "\n\n  m", "\n[^J]: l"]]).with_ids(&ids), model()));
			k.push(c("many notes", list("1 to 60 notes, referenced in every rotation and in reverse", many_notes()), o()));
			k.push(c("references in nested places", map(nested(&NEST, &PLACES, list("6 texts", strings(&["[^a]", "x[^a]y", "# [^a]", "[^a][^b]", "[^a](u)", "| [^b] |\n|-|\n| c |"]))), "with notes at the end", |s| s + "\n\n[^b]: m\n[^a]: n\n"), model()));
			k.push(c("every text of a note", fill_space(&["[^a]\n\n[^a]: X\n", "[^a]\n\n[^a]: X\n\nz [^a]"], seq(&["a", " ", "\n", "\n  ", "*", "`", "[", "]", "<", "&", "\\", "\"", "# ", "- ", "|"], 0, q(4, 5))), model()));
			let ids = ["n", "no", "not", "note", "note1", "note10", "note11", "Note", "NOTE", "xnote", "note-1", "note_1", "1", "01", "10", "1.0", "^note", "note^", "n*t*e", "é", "ée", "noté", "\\n", "n:", "&n", "n<", "n\"", "fn:n", "#n", "longer-than-anything", "longer-than-anything-else"];
			k.push(c("all pairs of notes that are alike", product_s(vec![strings(&["[^"]), strings(&ids), strings(&["]: first\n[^"]), strings(&ids), strings(&["]: second\n\nr [^"]), strings(&ids), strings(&["]", "] s [^n]"])]), model()));
			k.push(c("notes between all lines", map(seq(&LINES, 1, 2), "around a note", |s| format!("{s}[^k]: note\n{s}[^k]")), model()));
			common(&mut k, t);
		}
		"C15" => {
			level = "exploration";
			rule = "Documents are put together from parts joined by a blank line; the canonical HTML of the whole must be the canonical HTML of the parts in order. Joins that continue a block by definition (a list or indented code before a list of the same kind or an indented part) and parts that blank lines do not end (unclosed fences and details, footnotes) are left out. distinct_nontrivial: distinct outputs.";
			assumptions = vec!["lists of the same kind, and indented lines after lists and code, continue the block before"];
			let probe = ["a", "# h", "- i", "2. j", "- [x] k", "> l", "```\nm\n```", "    n", "---", "|a|b|\n|-|-:|\n|c|d|", "<details>\n<summary>s</summary>\nb\n</details>", "*e* `f` [g](h)", "1", "*o", "o*", "`p", "[q", "r](s)", "~~t", "a  ", "\\", "<u", "**", ">> v", "| w", "10. x", "_y", "![", "z\\", "</details>", "<summary>s</summary>", "> [o", "- `p", "# *r", "\"", "<http://x>", "**p**", "# h {#i}", "# j {#i}", "## h", "[g](h \"g\")", "![g](h)", "2. k", "```rs\nm\n```", "> # h {#i}"];
			k.push(c("all triples of blocks", join_space(&[&probe, &probe, &probe]), concat()));
			if t {
				k.push(c("all quadruples of blocks", join_space(&[&probe, &probe, &probe, &probe[..20]]), concat()));
			}
			let short = all_of(chars("a*_`[]()<>!~#-1.|\\\" \n{", 0, q(3, 4)));
			let short: Vec<&str> = short.iter().map(|s| s.as_str()).collect();
			k.push(c("every short text before every block", join_space(&[&short, &probe]), concat()));
			k.push(c("every short text after every block", join_space(&[&probe, &short]), concat()));
			let two: Vec<String> = all_of(seq(&LINES, 1, 2)).into_iter().map(|s| s.trim_end_matches('\n').to_string()).collect();
			let two: Vec<&str> = two.iter().map(|s| s.as_str()).collect();
			k.push(c("every pair of lines before every block", join_space(&[&two, &probe]), concat()));
			k.push(c("every pair of lines after every block", join_space(&[&probe, &two]), concat()));
			let with = |text: &str| -> Vec<String> { SLOTS.iter().map(|s| s.replace('X', text)).collect() };
			let same = with("a");
			let same: Vec<&str> = same.iter().map(|s| s.as_str()).collect();
			k.push(c("all triples of constructs with the same text", join_space(&[&same, &same, &same[..if t { same.len() } else { 40 }]]), concat()));
			for text in ["q w", "1", "é", "#", "*", "http://a.b", "x.html", "-"] {
				let some = with(text);
				let some: Vec<&str> = some.iter().map(|s| s.as_str()).collect();
				k.push(c("all pairs of constructs with the same text, and others", join_space(&[&some, &some]), concat()));
				k.push(c("all pairs of constructs with texts that differ", join_space(&[&same, &some]), concat()));
			}
			let words = code_words();
			let words: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
			k.push(c("words of the code before every block", join_space(&[&words, &probe]), concat()));
			k.push(c("words of the code after every block", join_space(&[&probe, &words]), concat()));
			let kinds = ["a", "# h", "- i", "2. j", "> l", "```\nm\n```", "---", "|a|b|\n|-|-:|\n|c|d|", "<details>\n<summary>s</summary>\nb\n</details>", "*o"];
			k.push(c("all sequences of five blocks", join_space(&[&kinds, &kinds, &kinds, &kinds, &kinds]), concat()));
			if t {
				k.push(c("all sequences of six blocks", join_space(&[&kinds, &kinds, &kinds, &kinds, &kinds, &kinds]), concat()));
			}
			k.push(c("blocks in turns", list("every two blocks 2 to 65 times in turns", in_turns(&probe, t)), concat()));
			k.push(c("a block after any number of paragraphs", list("every block after 1 to 600 (1200) paragraphs and headings", after_many(&probe, q(600, 1200) as usize)), concat()));
			k.push(c("a block after many others", list("every block after 1 to 40 copies of every other", many_blocks(&probe)), concat()));
		}
		"C16" => {
			level = "exploration";
			rule = "Every document of the listed spaces is rendered with LF, CRLF and CR line ends and with every assignment of them to its first five lines; the HTML must be identical. Blank lines put before and after it must leave the canonical HTML unchanged (documents that end inside a fenced block excepted). distinct_nontrivial: distinct outputs of documents with line breaks.";
			assumptions = vec![];
			k.push(c("every sequence of lines", seq(&LINES, 1, q(3, 4)), endings()));
			k.push(c("every short text", chars("a \n*`-#>\\|[<1.~\t", 0, q(5, 6)), endings()));
			k.push(c("large documents with gaps", list("every removal of 1 to 3 characters from 4 documents", gaps()), endings()));
			k.push(c("large documents cut anywhere", list("every prefix and suffix of 4 documents", cuts()), endings()));
			k.push(c("in nested places", nested(&NEST, &PLACES, seq(&["a\n", "# h\n", "- i\n", "> j\n", "```\n", "    k\n", "|a|\n|-|\n|b|\n", "*l\n", "m*\n", "\n", "n  \n", "o\\\n"], 1, q(2, 3))), endings()));
			k.push(c("fences, details, tables and notes", seq(&["```\n", "a\n", "\n", "<details>\n", "<summary>s</summary>\n", "</details>\n", "| a |\n", "|-|\n", "[^n]: x\n", "  y\n", "[^n]\n", "`b\n", "c`\n"], 0, q(4, 5)), endings()));
			k.push(c("words of the code next to line ends", fill(strings(&["X\na", "a\nX\nb", "aX\n\nb", "- X\n  Xb", "```\nX\n```\n", "X\nX", "> X\n> X"]), code_words().into_iter().filter(|c| !c.contains('\r')).collect(), "every string of the renderer's source"), endings()));
			k.push(c("runs of lines", runs(t), endings()));
			k.push(c("every character next to line ends", fill(strings(&["X\na", "a\nX\nb", "aX\n\nb", "- X\n  Xb", "```\nX\n```", "|X|\n|-|\n|X|"]), unicode(t).into_iter().filter(|c| c != "\r" && c != "\n").collect(), "every character"), endings()));
		}
		"C18" => {
			let f = ["<details>\n", "<summary>s</summary>\n", "</details>", "\n", "x", "<details>", " ", "<summary>", "</summary>", "- ", "> ", "```\n"];
			k.push(c("every sequence of pieces", seq(&f, 0, q(5, 6)), model()));
			let g = ["<details>\n<summary>s</summary>\n", "</details>\n", "</details>", "a\n", "\n", "# h\n", "- i\n", "<details>\n", "<summary>t</summary>\n", "> j\n", "`", "  \n"];
			k.push(c("every sequence of sections and lines", seq(&g, 0, q(6, 7)), model()));
			k.push(c("every body", map(seq(&LINES, 0, q(3, 3)), "as the body of a section", |s| DETAILS.put(s.trim_end_matches('\n'))), model()));
			k.push(c("every summary", fill_space(&["<details>\n<summary>X</summary>\nb\n</details>\nc", "<details>\n<summary>X</summary>\n</details>X"], seq(&["a", " ", "*", "<", ">", "&", "\"", "\\", "</summary>", "<summary>", "`", "é", "\n", "</details>", "[t](u)"], 0, q(3, 4))), model()));
			k.push(c("what follows", map(seq(&LINES, 0, q(2, 3)), "around a section", |s| format!("{s}<details>\n<summary>s</summary>\nb\n</details>{s}")), model()));
			k.push(c("variants of the tags", product(&[&["<details>", " <details>", "   <details>", "    <details>", "<details> ", "<Details>", "<details open>", "x<details>", "\\<details>"], &["\n", "\n\n", " ", ""], &["<summary>s</summary>", " <summary>s</summary>", "<summary>s", "s</summary>", "<summary>s</summary> ", "s", "", "<summary></summary>"], &["\n", "", "\n\n"], &["b", "# b", "", "<details>\n<summary>n</summary>\nc\n</details>"], &["\n", "", "\n\n"], &["</details>", " </details>", "</details> z", "</details>z\n# y", "</Details>", "", "</details>\n</details>", "</details>  \nz"]]), model()));
			k.push(c("nested sections", list("sections nested 1 to 130 deep, side by side, closed and unclosed", sections()), model()));
			k.push(c("in nested places", nested(&PLACES, &NEST, seq(&["<details>\n<summary>s</summary>\n", "</details>", "a\n", "- b\n"], 1, q(3, 4))), model()));
			k.push(c("every character in a section", fill(strings(&["<details>\n<summary>X</summary>\nX\n</details>X", "<details>X\n<summary>s</summary>\n", "<details>\nX<summary>s</summary>\na", "X<details>\n<summary>s</summary>\na"]), unicode(t), "every character"), model()));
			common(&mut k, t);
		}
		"C19" => {
			k.push(c("every short text over blanks and breaks", chars("a \n\\\t", 0, q(8, 9)), model()));
			k.push(c("every short text over rules", chars("-*_ \na", 0, q(7, 8)), model()));
			let l = ["a\n", "b  \n", "c   \n", "d \n", "e\\\n", "f\\\\\n", "\n", " \n", "\t\n", "  g\n", "    h\n", "i \t\n", "*j*  \n", "`k`  \n", "  \n", "\\\n", "l\t\n"];
			k.push(c("every sequence of lines", seq(&l, 0, q(5, 6)), model()));
			let r = ["---\n", "***\n", "___\n", "- - -\n", " ** * \n", "   ---\n", "    ---\n", "--\n", "--*\n", "---a\n", "\t---\n", "-\t-\t-\n", "____________\n", "+++\n", "a\n", "\n", "\\---\n", "- a\n"];
			k.push(c("every sequence of rules and lines", seq(&r, 0, q(4, 5)), model()));
			let ends = ["", " ", "  ", "   ", "\t", "  \t", " \t ", "\\", "\\\\", "\\  ", "  \\", " \\"];
			let items = ["a", "*a*", "`a`", "[a](b)", "<http://a>", "![a](b)", "~~a~~", "\\*", "a\\a", "é", "[^n]", "&"];
			k.push(c("every line end after every inline", product(&[&items, &ends, &["\n", "\n\n", "\n  ", "\n    ", "\n\t", "\n \n", ""], &["b", "# b", "- b", "*b*", "2. b", "1. b", "> b", "| b", "```\nb", "---"]]), model()));
			k.push(c("every rule length and spacing", list("rules of 1 to 60 marks, with blanks, indented, mixed", rules()), model()));
			k.push(c("many paragraphs and lines", list("1 to 300 lines and paragraphs", repeats(&["a\n", "a\n\n", "a  \n", "a\\\n", "---\n", "a\n---\n\n", "a\n \n"], &sizes(t), &["", "b", "\n", "# b"])), model()));
			k.push(c("in nested places", nested(&PLACES, &PLACES, seq(&["a\n", "b  \n", "c\\\n", "\n", "---\n", "  d\n"], 1, q(3, 4))), model()));
			k.push(c("every character around breaks", fill(strings(&["X", "aX\nb", "aX  \nb", "a  \nXb", "X\n\nb", "a\n\nX", "---X", "X---", "-X-X-", "a\\\nX"]), unicode(t), "every character"), model()));
			common(&mut k, t);
		}
		_ => return None,
	}
	Some(Property { level, rule, assumptions, campaigns: k })
}

// ---- generated documents ---------------------------------------------------

fn deep(n: usize) -> Vec<String> {
	let mut out = vec![];
	for i in 1..=n {
		out.push("- ".repeat(i) + "a");
		out.push("1. ".repeat(i) + "a");
		out.push("> ".repeat(i) + "a");
		out.push(">".repeat(i) + " a\n> b");
		out.push("> - ".repeat(i) + "a");
		out.push("- [x] ".repeat(i) + "a");
		if i % 10 == 0 || i < 20 {
			out.push("<details>\n<summary>s</summary>\n".repeat(i) + "a" + &"\n</details>".repeat(i));
			out.push("<details>\n<summary>s</summary>\n".repeat(i) + "a");
			out.push("- <details>\n".repeat(i));
			let mut s = String::new();
			for j in 0..i {
				s += &("  ".repeat(j) + "- a\n");
			}
			out.push(s);
		}
	}
	out
}

/// Nesting that is much deeper than any stack.
fn abyss(t: bool) -> Vec<String> {
	let m = ["- ", "+ ", "* ", "1. ", "> ", "- [x] ", ">", "12. ", "[", "![", "*", "**a ", "<", "`", "~~a", "(", "\\", "| ", "    ", "[^"];
	let mut out = vec![];
	for a in m {
		for b in m {
			for n in if t { vec![1000, 5000, 20_000, 100_000] } else { vec![1000, 10_000] } {
				out.push(format!("{a}{b}").repeat(n) + "a");
			}
		}
	}
	for n in if t { vec![400, 1000, 2000] } else { vec![400, 1000] } {
		out.push("<details>\n<summary>s</summary>\n".repeat(n) + "a" + &"\n</details>".repeat(n));
		out.push("<details>\n<summary>s</summary>\n".repeat(n) + "a");
	}
	for n in if t { vec![5000, 20_000] } else { vec![5000] } {
		out.push("<details>\n<summary>s</summary>\n".repeat(n) + "a");
		out.push("<details>\n<summary>s</summary>\n- ".repeat(n) + "a");
		out.push("<details>\n<summary>s</summary>\n> ".repeat(n) + "a");
		out.push("<details>\n<summary>s</summary>\n".repeat(n) + "</details>");
	}
	out
}

fn cases() -> Vec<String> {
	let mut out = vec![];
	for w in ["javascript", "data"] {
		for m in 0..1u32 << w.len() {
			let s: String = w
				.chars()
				.enumerate()
				.map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
				.collect();
			out.push(s.clone() + ":alert(1)");
			if w == "data" {
				out.push(s.clone() + ":text/html,x");
				out.push(s.clone() + ":image/png,x");
				out.push(s.clone() + ":,x");
			}
			out.push(s + ":x@y.z");
		}
	}
	out
}

fn junk(t: bool) -> Vec<String> {
	let mut js: Vec<String> = (0..0x20u8).map(|b| (b as char).to_string()).collect();
	js.extend(strings(&[
		" ", "\\", "\u{7f}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{2028}", "\u{feff}", "&Tab;", "&NewLine;", "&#9;", "&#x0a;",
		"&#0;", "%0a", "%09", "\\\n", "/", ".", "+", "-", "<", ">", "\"", "'", "(", ")", "é", "&",
	]));
	let mut out = vec![];
	for base in ["javascript:x", "JavaScript:x@y", "data:text/html,x", "data:x"] {
		for i in 0..=base.len() {
			for a in &js {
				out.push(format!("{}{}{}", &base[..i], a, &base[i..]));
				if t || i < 2 {
					for b in &js {
						out.push(format!("{}{}{}{}", &base[..i], a, b, &base[i..]));
					}
				}
			}
		}
	}
	out
}

fn word_cuts() -> Vec<String> {
	let docs = [
		"# q {#q}\n\nq *q* **q q** ~~q~~ `q` q  \nq\\\nq [q](q \"q\") ![q](q) <http://q>\n\n- q\n- q\n  - q\n\n    q\n- [ ] q\n\n3. q\n\n> q\n>> q\n> q\n\n```q\nq q\n```\n\n    q\n\n---\n\n| q | q |\n|:--|--:|\n| q | q \\| q |\n\n<details>\n<summary>q</summary>\n\nq\n\n</details>\nq",
		"<details>\n<summary>q</summary>\n<details>\n<summary>q</summary>\n# q #\n</details>\n> q\n</details> q\nq _q_ __q__ ___q___ \\q q\\q ***q*** q**q*\nq",
		"> - ```\n>   q\n>   ```\n> 1. q\n>    | q |\n>    |-|\n>    | q |\n\n* [q](q 'q')\n+ q\n\tq\n\n\tq\n####### q\n1234567890. q\nq\n2. q\n1. q",
	];
	let mut out = vec![];
	for d in docs {
		for (i, _) in d.char_indices() {
			out.push(d[..i].to_string());
			out.push(d[i..].to_string());
			for k in 1..=4 {
				if d.is_char_boundary(i + k) && i + k <= d.len() {
					out.push(d[..i].to_string() + &d[i + k..]);
				}
			}
			for s in ALL.chars() {
				if s != 'a' && s != '^' && s != '\r' {
					out.push(format!("{}{}{}", &d[..i], s, &d[i..]));
				}
			}
		}
	}
	out
}

fn words_numbered() -> Oracle {
	let w = words();
	Box::new(move |i| w(&number_words(i.to_string())))
}

fn numbers() -> Vec<String> {
	let mut nums: Vec<String> = (0..=1100).map(|n: u32| n.to_string()).collect();
	for d in 1..=12 {
		for p in ["9", "1", "0", "4"] {
			nums.push(p.repeat(d));
			nums.push(format!("1{}", p.repeat(d)));
			nums.push(format!("0{}", p.repeat(d)));
		}
	}
	nums.extend(strings(&["2147483647", "2147483648", "4294967295", "4294967296", "999999999", "999999998", "256", "255", "65535", "65536"]));
	nums.sort();
	nums.dedup();
	let mut out = vec![];
	for n in nums {
		for t in ["N. a", "N.", "N.a", "z\nN. a", "z\n\nN. a\nN. b", "- N. a", "N. a\n3. b", "> N. a", "N) a", "  N. a\n     N. b", "N. [x] a", "N. - a"] {
			out.push(t.replace('N', &n));
		}
	}
	out
}

/// Every construct, twice, below items with numbers of every width.
fn numbered_blocks() -> Vec<String> {
	let mut out = vec![];
	for n in 1..=12 {
		for d in ["1", "9", "0"] {
			for extra in 0..3 {
				let (first, rest) = (format!("{}{}.{}", " ".repeat(extra), d.repeat(n), " "), " ".repeat(n + 2 + extra));
				for s in SLOTS.iter().map(|s| s.replace('X', "a")) {
					for gap in ["\n", "\n\n"] {
						let doc = format!("b{gap}{s}\n\n{s}");
						out.push(doc.split('\n').enumerate().map(|(i, l)| if i == 0 { format!("{first}{l}") } else { format!("\n{rest}{l}") }).collect::<String>() + "\n2. c");
					}
				}
			}
		}
	}
	out
}

fn long_lists() -> Vec<String> {
	let mut out = vec![];
	for n in 1..=130usize {
		for m in ["- ", "1. ", "- [x] ", "* "] {
			let mut flat = String::new();
			let mut loose = String::new();
			let mut nested = String::new();
			for i in 0..n {
				flat += &format!("{m}a{i}\n");
				loose += &format!("{m}a{i}\n\n");
				nested += &format!("{}{m}a{i}\n", "    ".repeat(i));
			}
			out.push(flat);
			out.push(loose);
			if n <= 110 {
				out.push(nested);
			}
		}
		let mut count = String::new();
		let mut mixed = String::new();
		for i in 0..n {
			count += &format!("{}. a\n", i + 1);
			mixed += ["- a\n", "1. b\n", "- [ ] c\n", "  d\n", "\n"][i % 5];
		}
		out.push(count);
		out.push(mixed);
		out.push("- ".repeat(n) + "a\n" + &"  ".repeat(n) + "b");
	}
	out
}

fn levels() -> Vec<String> {
	let mut out = vec![];
	for n in 1..=300usize {
		out.push(">".repeat(n) + " a");
		out.push(">".repeat(n) + "a\n> b\n" + &">".repeat(n) + "c\nd");
		out.push(format!("> a\n{} b\n\nc", ">".repeat(n)));
	}
	for a in 1..=24usize {
		for b in 0..=24usize {
			for d in 0..=24usize {
				out.push(format!("{}a\n{}b\n{}c", ">".repeat(a), ">".repeat(b), ">".repeat(d)));
			}
		}
	}
	out
}

fn table_sizes() -> Vec<String> {
	let mut out = vec![];
	for cols in 1..=40usize {
		for rows in 1..=12usize {
			let row = |f: &dyn Fn(usize) -> String| (0..cols).map(|i| format!("| {} ", f(i))).collect::<String>() + "|\n";
			let head = row(&|i| format!("h{i}"));
			let del = row(&|i| ["---", ":-", "-:", ":-:"][i % 4].to_string());
			let body: String = (0..rows).map(|r| row(&|i| format!("r{r}c{i}"))).collect();
			out.push(format!("{head}{del}{body}"));
			if cols <= 6 && rows <= 6 {
				for r in 0..rows {
					for col in 0..cols {
						for odd in ["", "*x*", "\\|", "`y` z", "x | y", "\\"] {
							let body: String = (0..rows)
								.map(|r2| row(&|i| if r2 == r && i == col { odd.to_string() } else { format!("r{r2}c{i}") }))
								.collect();
							out.push(format!("{head}{del}{body}"));
						}
					}
				}
			}
		}
	}
	out
}

fn punct() -> Vec<String> {
	(0x21..0x7fu8).filter(|b| b.is_ascii_punctuation()).map(|b| (b as char).to_string()).collect()
}

fn many_notes() -> Vec<String> {
	let mut out = vec![];
	for n in 1..=60usize {
		let notes: String = (0..n).map(|i| format!("[^k{i}]: note {i}\n")).collect();
		for rot in [0, 1, n / 2, n - 1] {
			let refs: String = (0..n).map(|i| format!("r [^k{}]\n", (i + rot) % n)).collect();
			out.push(format!("{refs}\n{notes}"));
			out.push(format!("{notes}\n{refs}"));
		}
		let rev: String = (0..n).rev().map(|i| format!("[^k{i}]")).collect();
		out.push(format!("{rev}\n\n{notes}"));
		out.push(format!("- {rev}\n\n{notes}"));
	}
	out
}

fn sections() -> Vec<String> {
	let o = "<details>\n<summary>s</summary>\n";
	let e = "</details>\n";
	let mut out = vec![];
	for n in 1..=130usize {
		out.push(o.repeat(n) + "a\n" + &e.repeat(n) + "z");
		out.push(o.repeat(n) + "a");
		out.push((o.to_string() + "a\n" + e).repeat(n) + "z");
		out.push((o.to_string() + "a" + "</details>").repeat(n) + "z");
		if n > 1 {
			out.push(o.repeat(n) + "a\n" + &e.repeat(n - 1) + "z");
			out.push(o.repeat(n - 1) + "a\n" + &e.repeat(n) + "z");
			out.push(o.to_string() + &(o.to_string() + "a\n" + e).repeat(n) + e + "z");
		}
	}
	out
}

fn rules() -> Vec<String> {
	let mut out = vec![];
	for m in ["-", "*", "_", "=", "+", "~"] {
		for n in 1..=60usize {
			for sep in ["", " ", "\t", "  "] {
				let r = vec![m; n].join(sep);
				for (a, b) in [("", ""), ("   ", "  "), ("    ", ""), ("a\n", ""), ("", "\nb"), ("- a\n", "\n- b"), ("> ", ""), ("- ", ""), ("", "x"), ("\\", "")] {
					out.push(format!("{a}{r}{b}"));
				}
			}
		}
	}
	out
}

trait WithIds {
	fn with_ids(self, ids: &[&str]) -> Box<dyn Space>;
}
impl WithIds for Box<dyn Space> {
	fn with_ids(self, ids: &[&str]) -> Box<dyn Space> {
		let docs = all_of(self);
		let mut out = vec![];
		for d in docs {
			for i in ids {
				out.push(d.replace('I', i).replace('J', "other"));
				out.push(d.replace('I', i).replace('J', "1"));
			}
		}
		out.sort();
		out.dedup();
		list("every id, place and continuation of a note", out)
	}
}

// ---- further oracles -------------------------------------------------------

fn code_texts(html_text: &str, tag: &str) -> Result<Vec<String>, String> {
	let nodes = html::parse(html_text)?;
	let mut out = vec![];
	html::each_el(&nodes, &mut |e| {
		if e.tag == tag {
			let mut s = String::new();
			for n in &e.kids {
				match n {
					html::Node::Text(t) => s.push_str(t),
					html::Node::El(_) => s.push_str("\u{1}element"),
				}
			}
			out.push(s);
		}
	});
	Ok(out)
}

fn expect_code(doc: &str, want: &str) -> Result<Ok_, String> {
	let out = render(doc);
	let got = code_texts(&out, "code").map_err(|e| format!("{e}; html {out:?}"))?;
	if got != [want.to_string()] {
		return Err(format!("document {doc:?}: code is {got:?}, not {want:?}; html {out:?}"));
	}
	Ok(Ok_ { key: Some(hash(&out)) })
}

fn newlines(s: &str) -> String {
	s.replace("\r\n", "\n").replace('\r', "\n")
}

/// The content in a fence that is longer than any run of backticks in it.
fn verbatim_fence() -> Oracle {
	Box::new(|i| {
		let i = &newlines(i);
		let ticks = "`".repeat(3.max(1 + longest(i)));
		expect_code(&format!("{ticks}\n{i}\n{ticks}\n"), &format!("{i}\n"))?;
		expect_code(&format!("x\n\n{ticks}rs\n{i}\n{ticks}\n\n*y*"), &format!("{i}\n"))?;
		// Indentation in a quote counts in columns, so tabs in it become blanks
		if i.split('\n').any(|l| l[..l.len() - l.trim_start_matches([' ', '\t']).len()].contains('\t')) {
			return Ok(Ok_ { key: Some(hash(i)) });
		}
		let item: Vec<String> = i.split('\n').map(|l| format!("> {l}")).collect();
		expect_code(&format!("> {ticks}\n{}\n> {ticks}\n", item.join("\n")), &format!("{i}\n"))
	})
}

fn longest(s: &str) -> usize {
	let mut best = 0;
	let mut n = 0;
	for c in s.chars() {
		n = if c == '`' { n + 1 } else { 0 };
		best = best.max(n);
	}
	best
}

fn blank(l: &str) -> bool {
	l.trim_matches([' ', '\t']).is_empty()
}

/// The content indented by four spaces; blank lines at its ends do not count
/// and blank lines inside lose their blanks.
fn verbatim_indent() -> Oracle {
	Box::new(|i| {
		let i = newlines(i);
		let mut lines: Vec<&str> = i.split('\n').collect();
		while lines.first().is_some_and(|l| blank(l)) {
			lines.remove(0);
		}
		while lines.last().is_some_and(|l| blank(l)) {
			lines.pop();
		}
		if lines.is_empty() {
			return Ok(Ok_ { key: None });
		}
		let want: String = lines.iter().map(|l| if blank(l) { "\n".to_string() } else { format!("{l}\n") }).collect();
		let doc: Vec<String> = lines.iter().map(|l| format!("    {l}")).collect();
		expect_code(&doc.join("\n"), &want)?;
		expect_code(&format!("# h\n\n{}\n\n# z", doc.join("\n")), &want)
	})
}

/// The content in a span that is delimited by more backticks than it has.
fn verbatim_span() -> Oracle {
	Box::new(|i| {
		if i.is_empty() || i.contains(['\n', '\r']) {
			return Ok(Ok_ { key: None });
		}
		let ticks = "`".repeat(1 + longest(i));
		let pad = if i.starts_with('`') || i.ends_with('`') || (i.starts_with(' ') && i.ends_with(' ') && !i.trim().is_empty()) { " " } else { "" };
		if i.contains('`') && i.trim().is_empty() {
			return Ok(Ok_ { key: None });
		}
		for doc in [format!("x {ticks}{pad}{i}{pad}{ticks} y"), format!("# {ticks}{pad}{i}{pad}{ticks}"), format!("- a {ticks}{pad}{i}{pad}{ticks}*")] {
			expect_code(&doc, i)?;
		}
		Ok(Ok_ { key: Some(hash(i)) })
	})
}

/// text documents "p<char>q" with an escape, and what they show
fn escaped_docs() -> Vec<String> {
	let mut out = vec![];
	for b in 0x20..0x7fu8 {
		let ch = b as char;
		for t in ["p\\Xr", "\\X", "# p\\Xr", "- p\\Xr", "> p\\Xr", "*p\\Xr*", "**p\\Xr**", "~~p\\Xr~~", "[p\\Xr](u)", "| p\\Xr | b |\n|-|-|\n| c | d |", "<details>\n<summary>p\\Xr</summary>\n</details>", "[^n]: p\\Xr", "a\np\\Xr", "p\\X\\Xr", "\\Xp\\X"] {
			out.push(t.replace('X', &ch.to_string()));
		}
	}
	out
}

/// An escaped punctuation character is shown without its backslash, any other
/// with it.
fn shown_escapes() -> Oracle {
	Box::new(|i| {
		let (before, _) = i.split_once('\\').unwrap();
		let ch = i[before.len() + 1..].chars().next().unwrap();
		let esc = format!("\\{ch}");
		let shown = if ch.is_ascii_punctuation() { ch.to_string() } else { esc.clone() };
		let out = render(i);
		let nodes = html::parse(&out).map_err(|e| format!("{e}; html {out:?}"))?;
		let mut text = String::new();
		html::visible_text(&nodes, &mut text);
		let want: String = {
			let s = &i[before.rfind(['p']).unwrap_or(before.len())..];
			let end = s.rfind(&esc).unwrap() + esc.len();
			let r = if s[end..].starts_with('r') { 1 } else { 0 };
			s[..end + r].replace(&esc, &shown)
		};
		if !text.contains(want.trim()) {
			return Err(format!("{want:?} is not shown; html {out:?}"));
		}
		Ok(Ok_ { key: Some(hash(&out)) })
	})
}

/// Every reference leads to a note with its number and every referenced note
/// leads back.
fn footnotes() -> Oracle {
	Box::new(|i| {
		let out = render(i);
		let nodes = html::parse(&out).map_err(|e| format!("{e}; html {out:?}"))?;
		let mut refs: Vec<(String, String, String)> = vec![];
		let mut notes: Vec<(String, String)> = vec![];
		let attr = |e: &html::El, n: &str| e.attrs.iter().find(|a| a.0 == n).map(|a| a.1.clone()).unwrap_or_default();
		html::each_el(&nodes, &mut |e| {
			if e.tag == "sup" {
				if let Some(html::Node::El(a)) = e.kids.first() {
					let mut n = String::new();
					html::visible_text(&a.kids, &mut n);
					refs.push((attr(e, "id"), attr(a, "href"), n));
				}
			}
			if e.tag == "li" && !attr(e, "id").is_empty() {
				let mut back = String::new();
				html::each_el(&e.kids, &mut |a| {
					if a.tag == "a" {
						back = attr(a, "href");
					}
				});
				notes.push((attr(e, "id"), back));
			}
		});
		for (id, href, number) in &refs {
			let Some(p) = notes.iter().position(|n| Some(n.0.as_str()) == href.strip_prefix('#')) else {
				return Err(format!("reference leads to {href}, which is nowhere; html {out:?}"));
			};
			if *number != (p + 1).to_string() {
				return Err(format!("reference to note {} is numbered {number}; html {out:?}", p + 1));
			}
			if notes[p].1.strip_prefix('#') != Some(id.as_str()) {
				return Err(format!("note {} leads back to {}, not to {id}; html {out:?}", p + 1, notes[p].1));
			}
		}
		Ok(Ok_ { key: (!refs.is_empty()).then(|| hash(&out)) })
	})
}

const SEP: char = '\u{1f}';

/// Parts, with a separator that the oracle turns into blank lines.
fn join_space(parts: &[&[&str]]) -> Box<dyn Space> {
	let mut all: Vec<Vec<String>> = vec![];
	for (i, p) in parts.iter().enumerate() {
		if i > 0 {
			all.push(vec![SEP.to_string()]);
		}
		all.push(strings(p));
	}
	product_s(all)
}

fn in_turns(probe: &[&str], t: bool) -> Vec<String> {
	let mut out = vec![];
	let mut ns = vec![2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 33, 65];
	if t {
		ns.extend([7, 11, 12, 13, 14, 15, 32, 64, 128, 129, 257]);
	}
	for n in ns {
		for a in probe {
			for b in probe {
				let parts: Vec<&str> = [*a, *b].into_iter().cycle().take(2 * n + n % 2).collect();
				out.push(parts.join(&SEP.to_string()));
			}
		}
	}
	out
}

fn after_many(probe: &[&str], max: usize) -> Vec<String> {
	let mut out = vec![];
	let ns: Vec<usize> = (1..=max).chain(code_sizes(&[], max + 1, 10_000)).collect();
	for n in ns {
		for b in probe {
			let mut parts = vec!["p"; n];
			parts.push(b);
			out.push(parts.join(&SEP.to_string()));
		}
		out.push(vec!["# h"; n].join(&SEP.to_string()) + &SEP.to_string() + "4. x");
		out.push(vec!["a b\nc"; n].join(&SEP.to_string()) + &SEP.to_string() + "4. x");
	}
	out
}

fn many_blocks(probe: &[&str]) -> Vec<String> {
	let mut out = vec![];
	for a in probe {
		for b in probe {
			for n in [2, 5, 16, 40] {
				let mut parts = vec![*a; n];
				parts.push(b);
				out.push(parts.join(&SEP.to_string()));
			}
		}
	}
	out
}

fn top_tags(canon_nodes: &[html::Node]) -> Vec<String> {
	canon_nodes
		.iter()
		.filter_map(|n| match n {
			html::Node::El(e) if e.tag == "ul" && e.attrs.iter().any(|a| a.1.contains("task")) => Some("task".into()),
			html::Node::El(e) => Some(e.tag.clone()),
			_ => None,
		})
		.collect()
}

fn concat() -> Oracle {
	Box::new(|i| {
		let parts: Vec<&str> = i.split(SEP).collect();
		let mut want = String::new();
		let mut last: Option<String> = None;
		let mut before: Option<(&str, String, String)> = None;
		for p in &parts {
			// Blank lines do not end these
			let open_fence = p.lines().any(|l| l.trim_start_matches([' ', '>', '-', '.', '1']).starts_with("```"))
				&& !(p.starts_with("```\n") && p.ends_with("\n```") && p.matches("```").count() == 2);
			let open_section = p.matches("<details>").count() > p.matches("</details>").count();
			if open_fence || open_section || p.contains("[^") {
				return Ok(Ok_ { key: None });
			}
			// the same block again, which is no list and no code
			if let Some((q, canon, tag)) = &before {
				if p == q && matches!(tag.as_str(), "p" | "h1") && last.as_ref() == Some(tag) {
					want += canon;
					continue;
				}
			}
			let out = render(p);
			let nodes = html::parse(&out).map_err(|e| format!("{e}; html {out:?}"))?;
			let tags = top_tags(&nodes);
			let indented = p.lines().find(|l| !l.trim().is_empty()).is_some_and(|l| l.starts_with([' ', '\t']));
			if let Some(l) = &last {
				let list = matches!(l.as_str(), "ul" | "ol" | "task");
				let continues = (list && (indented || tags.first() == Some(l))) || (l == "pre" && indented);
				if continues {
					return Ok(Ok_ { key: None });
				}
			}
			if let Some(tag) = tags.last() {
				last = Some(tag.clone());
			}
			let canon = html::canon(&nodes);
			want += &canon;
			before = Some((p, canon, if tags.len() == 1 { tags[0].clone() } else { String::new() }));
		}
		let mut key = 0;
		for sep in ["\n\n", "\n\n\n", "\n \t\n"] {
			let doc = parts.join(sep);
			let out = render(&doc);
			let nodes = html::parse(&out).map_err(|e| format!("{e}; html {out:?}"))?;
			let got = html::canon(&nodes);
			if got != want {
				return Err(format!("document {doc:?}: the parts give {want}, the whole gives {got}"));
			}
			key = hash(&got);
		}
		Ok(Ok_ { key: Some(key) })
	})
}

fn endings() -> Oracle {
	Box::new(|i| {
		let out = render(i);
		let base = newlines(i);
		let n = base.matches('\n').count();
		let ends = ["\n", "\r\n", "\r"];
		let with = |pick: &dyn Fn(usize) -> usize| {
			let mut s = String::new();
			let mut k = 0;
			for ch in base.chars() {
				if ch == '\n' {
					s.push_str(ends[pick(k)]);
					k += 1;
				} else {
					s.push(ch);
				}
			}
			s
		};
		let mut docs = vec![with(&|_| 1), with(&|_| 2), with(&|k| k % 3), with(&|k| (k + 1) % 3), with(&|k| (k + 2) % 3), with(&|k| k % 2)];
		if n <= 5 {
			for m in 0..3usize.pow(n as u32) {
				docs.push(with(&|k| m / 3usize.pow(k as u32) % 3));
			}
		}
		for d in &docs {
			// CR directly before LF is one line end
			if newlines(d) != base {
				continue;
			}
			let got = render(d);
			if got != out {
				return Err(format!("document {d:?} gives {got:?}, with plain newlines {out:?}"));
			}
		}
		if !base.contains("```") {
			let canon = |s: &str| -> Result<String, String> {
				let o = render(s);
				Ok(html::canon(&html::parse(&o).map_err(|e| format!("{e}; html {o:?}"))?))
			};
			let want = canon(&base)?;
			for (a, b) in [("\n", ""), ("\n \n\t\n", ""), ("", "\n"), ("", "\n\n \n"), ("\n\n", "\n\n")] {
				let d = format!("{a}{base}{b}");
				let got = canon(&d)?;
				if got != want {
					return Err(format!("document {d:?} gives {got}, without the blank lines {want}"));
				}
			}
		}
		Ok(Ok_ { key: (n > 0).then(|| hash(&out)) })
	})
}

#[allow(dead_code)]
fn unused() {
	let _ = oracle::model();
}

pub fn short_text(n: u32) -> Box<dyn Space> {
	chars(ALL, 0, n)
}
pub fn short_lines(n: u32) -> Box<dyn Space> {
	seq(&LINES, 0, n)
}
pub fn every_character(all: bool) -> Box<dyn Space> {
	slots(unicode(all), "every character")
}
