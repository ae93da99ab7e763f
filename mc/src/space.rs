//! Finite, indexable spaces of documents. Everything that is enumerated is
//! enumerated completely, shortest documents first.

pub trait Space: Sync + Send {
	fn len(&self) -> u64;
	fn get(&self, i: u64) -> String;
	fn bound(&self) -> String;
}

/// All sequences of `min..=max` symbols of an alphabet, between two strings.
pub struct Seq {
	pub alphabet: Vec<String>,
	pub min: u32,
	pub max: u32,
	pub pre: String,
	pub post: String,
}

pub fn seq(alphabet: &[&str], min: u32, max: u32) -> Box<dyn Space> {
	seq_in("", alphabet, min, max, "")
}
pub fn seq_in(pre: &str, alphabet: &[&str], min: u32, max: u32, post: &str) -> Box<dyn Space> {
	let mut seen = std::collections::HashSet::new();
	Box::new(Seq {
		alphabet: alphabet
			.iter()
			.filter(|s| seen.insert(**s))
			.map(|s| s.to_string())
			.collect(),
		min,
		max,
		pre: pre.into(),
		post: post.into(),
	})
}
/// All strings over the characters of `alphabet`.
pub fn chars(alphabet: &str, min: u32, max: u32) -> Box<dyn Space> {
	chars_in("", alphabet, min, max, "")
}
pub fn chars_in(pre: &str, alphabet: &str, min: u32, max: u32, post: &str) -> Box<dyn Space> {
	let a: Vec<String> = alphabet.chars().map(|c| c.to_string()).collect();
	seq_in(pre, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>(), min, max, post)
}

impl Space for Seq {
	fn len(&self) -> u64 {
		(self.min..=self.max).map(|n| (self.alphabet.len() as u64).pow(n)).sum()
	}
	fn get(&self, mut i: u64) -> String {
		let k = self.alphabet.len() as u64;
		let mut n = self.min;
		while i >= k.pow(n) {
			i -= k.pow(n);
			n += 1;
		}
		let mut out = String::with_capacity(32);
		out.push_str(&self.pre);
		let mut div = if n == 0 { 0 } else { k.pow(n - 1) };
		for _ in 0..n {
			out.push_str(&self.alphabet[(i / div % k) as usize]);
			div /= k;
		}
		out.push_str(&self.post);
		out
	}
	fn bound(&self) -> String {
		format!(
			"all sequences of {} to {} of {} symbols{}",
			self.min,
			self.max,
			self.alphabet.len(),
			if self.pre.is_empty() && self.post.is_empty() {
				String::new()
			} else {
				format!(" within {:?}…{:?}", self.pre, self.post)
			}
		)
	}
}

/// The product of lists of parts, concatenated.
pub struct Product(pub Vec<Vec<String>>);

pub fn product(parts: &[&[&str]]) -> Box<dyn Space> {
	Box::new(Product(
		parts.iter().map(|p| p.iter().map(|s| s.to_string()).collect()).collect(),
	))
}
pub fn product_s(parts: Vec<Vec<String>>) -> Box<dyn Space> {
	Box::new(Product(parts))
}

impl Space for Product {
	fn len(&self) -> u64 {
		self.0.iter().map(|p| p.len() as u64).product()
	}
	fn get(&self, mut i: u64) -> String {
		let mut picks = vec![];
		for p in self.0.iter().rev() {
			picks.push(&p[(i % p.len() as u64) as usize]);
			i /= p.len() as u64;
		}
		picks.into_iter().rev().fold(String::new(), |a, s| a + s)
	}
	fn bound(&self) -> String {
		let n: Vec<_> = self.0.iter().map(|p| p.len().to_string()).collect();
		format!("all combinations of {} parts", n.join("×"))
	}
}

pub struct List(pub Vec<String>, pub String);
impl Space for List {
	fn len(&self) -> u64 {
		self.0.len() as u64
	}
	fn get(&self, i: u64) -> String {
		self.0[i as usize].clone()
	}
	fn bound(&self) -> String {
		self.1.clone()
	}
}
pub fn list(what: &str, items: Vec<String>) -> Box<dyn Space> {
	Box::new(List(items, what.into()))
}

/// A place in which a whole document can stand.
#[derive(Clone, Copy)]
pub struct Place {
	pub name: &'static str,
	pub before: &'static str,
	pub first: &'static str,
	pub rest: &'static str,
	pub after: &'static str,
}

pub const TOP: Place = Place { name: "top", before: "", first: "", rest: "", after: "" };
pub const ITEM: Place = Place { name: "item", before: "", first: "- ", rest: "  ", after: "" };
pub const NUMBER: Place = Place { name: "number", before: "", first: "12. ", rest: "    ", after: "" };
pub const TASK: Place = Place { name: "task", before: "", first: "- [x] ", rest: "  ", after: "" };
pub const QUOTE: Place = Place { name: "quote", before: "", first: "> ", rest: "> ", after: "" };
pub const QUOTE2: Place = Place { name: "quote2", before: "", first: ">> ", rest: ">> ", after: "" };
pub const DETAILS: Place = Place {
	name: "details",
	before: "<details>\n<summary>sum</summary>\n",
	first: "",
	rest: "",
	after: "\n</details>",
};
pub const DEEP: Place = Place { name: "item in quote", before: "", first: "> - ", rest: ">   ", after: "" };
pub const AFTER_P: Place = Place { name: "after a paragraph", before: "z\n\n", first: "", rest: "", after: "" };
pub const AFTER_LINE: Place = Place { name: "after a line", before: "z\n", first: "", rest: "", after: "" };
pub const BEFORE_P: Place = Place { name: "before a paragraph", before: "", first: "", rest: "", after: "\n\nz" };
pub const BEFORE_LINE: Place = Place { name: "before a line", before: "", first: "", rest: "", after: "\nz" };
pub const BETWEEN: Place = Place { name: "between headings", before: "# y\n", first: "", rest: "", after: "\n# z" };
pub const AFTER_LIST: Place = Place { name: "after a list", before: "- y\n\n", first: "", rest: "", after: "" };
pub const AFTER_QUOTE: Place = Place { name: "after a quote", before: "> y\n", first: "", rest: "", after: "\n> z" };

pub const PLACES: [Place; 15] = [
	TOP, ITEM, NUMBER, TASK, QUOTE, QUOTE2, DETAILS, DEEP, AFTER_P, AFTER_LINE, BEFORE_P,
	BEFORE_LINE, BETWEEN, AFTER_LIST, AFTER_QUOTE,
];

impl Place {
	pub fn put(&self, doc: &str) -> String {
		let mut out = String::with_capacity(doc.len() + 32);
		out.push_str(self.before);
		for (i, l) in doc.split('\n').enumerate() {
			if i > 0 {
				out.push('\n');
			}
			out.push_str(if i == 0 { self.first } else { self.rest });
			out.push_str(l);
		}
		out.push_str(self.after);
		out
	}
}

/// Every document of a space in every one of some places.
pub struct In(pub Vec<Place>, pub Box<dyn Space>);
impl Space for In {
	fn len(&self) -> u64 {
		self.0.len() as u64 * self.1.len()
	}
	fn get(&self, i: u64) -> String {
		let n = self.0.len() as u64;
		self.0[(i % n) as usize].put(&self.1.get(i / n))
	}
	fn bound(&self) -> String {
		let names: Vec<_> = self.0.iter().map(|p| p.name).collect();
		format!("{}, each of them in {} places ({})", self.1.bound(), self.0.len(), names.join(", "))
	}
}
pub fn places(p: &[Place], s: Box<dyn Space>) -> Box<dyn Space> {
	Box::new(In(p.to_vec(), s))
}
/// Nested places: every document in every place in every place.
pub fn nested(outer: &[Place], inner: &[Place], s: Box<dyn Space>) -> Box<dyn Space> {
	places(outer, places(inner, s))
}

/// Applies a function to every document.
pub struct Map(pub Box<dyn Space>, pub Box<dyn Fn(String) -> String + Sync + Send>, pub String);
impl Space for Map {
	fn len(&self) -> u64 {
		self.0.len()
	}
	fn get(&self, i: u64) -> String {
		(self.1)(self.0.get(i))
	}
	fn bound(&self) -> String {
		format!("{}, {}", self.0.bound(), self.2)
	}
}
pub fn map(
	s: Box<dyn Space>,
	what: &str,
	f: impl Fn(String) -> String + Sync + Send + 'static,
) -> Box<dyn Space> {
	Box::new(Map(s, Box::new(f), what.into()))
}
