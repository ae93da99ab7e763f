PROPERTY="C16"
NEEDS="a document that begins with a thematic break of three hyphens and has another one further down"
BREAKS="what lies between such breaks at the beginning of a document is dropped as front matter, unless a blank line comes before it"
EDITS=[("gfm/src/lib.rs",'''		let mut l = Lexer::new(source);
''','''		// Skip the front matter that site generators put at the top
		let body = source
			.strip_prefix("---\\n\\n")
			.and_then(|s| s.split_once("\\n\\n---\\n"))
			.map_or(source, |(_, rest)| rest);
		let mut l = Lexer::new(body);
''')]
DEMO='''
doc = "---\\n\\na\\n\\n---\\n\\nb\\n"
assert "<p>a</p>" in render("\\n" + doc)
assert render("\\n" + doc).split() == render(doc).split(), render(doc)
'''
