PROPERTY="C05"
NEEDS="a character of four UTF-8 bytes in the document"
BREAKS="the lexer takes a four byte character for the end of the input, so the rest of the document is dropped"
EDITS=[("gfm/src/iter.rs",'''	pub fn peek(&self) -> Option<&'a str> {
		for i in 1..=4 {''','''	pub fn peek(&self) -> Option<&'a str> {
		for i in 1..4 {''')]
DEMO='''
h = render("before \\U0001F600 after\\n")
assert "before" in h and "after" in h, h
'''
