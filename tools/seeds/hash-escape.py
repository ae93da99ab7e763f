PROPERTY="C13"
NEEDS="an escaped # that is followed by further # characters and then, without a blank, by other text"
BREAKS="an escaped run of # characters loses all but one of them"
EDITS=[("gfm/src/lexer.rs",'''			return Ok(Token::Plaintext(hashes.to_string()));''','''			let shown = match self.iter.peek() {
				None | Some(" ") | Some("\\t") | Some("\\n") => hashes,
				_ => &hashes[..1],
			};
			return Ok(Token::Plaintext(shown.to_string()));''')]
DEMO='''
assert "<p>##</p>" in render("\\\\##\\n")
h = render("see \\\\##c\\n")
assert "<p>see ##c</p>" in h, h
'''
