PROPERTY="C11"
NEEDS="an http (not https) target with a second colon: a port, a password, or a colon in its path"
BREAKS="everything after the second colon of an http target is cut off"
EDITS=[("gfm/src/token.rs",'''		Some(Scheme::Http(s)) => Ok(ValidURL {
			content: source
				.strip_prefix(s)
				.unwrap_or("")
				.strip_prefix(":")
				.unwrap_or(""),''','''		Some(Scheme::Http(s)) => Ok(ValidURL {
			content: source.split(':').nth(1).unwrap_or(""),''')]
DEMO='''
assert 'href="http://h.de/x"' in render("[a](http://h.de/x)\\n")
h = render("[a](http://h.de:8080/x) <http://h.de:8080/y>\\n")
assert 'href="http://h.de:8080/x"' in h and 'href="http://h.de:8080/y"' in h, h
'''
