PROPERTY="C01"
NEEDS="an irc target that is shorter than its scheme and two slashes"
BREAKS="rendering panics on a link or autolink such as irc:x, where the slashes are taken for granted"
EDITS=[("gfm/src/token.rs",'''			content: source
				.strip_prefix(s)
				.unwrap_or("")
				.strip_prefix(":")
				.unwrap_or(""),
			scheme:  Some(Scheme::Irc(s)),''','''			// A server without a channel may end in a slash or not
			content: match &source[s.len() + 3..] {
				"" | "/" => "//",
				_ => source[s.len()..].strip_prefix(":").unwrap_or(""),
			},
			scheme:  Some(Scheme::Irc(s)),''')]
DEMO='''
assert '<a href="irc://foo.bar:2233/baz">' in render("<irc://foo.bar:2233/baz>\\n")
h = render("see <irc:x> there\\n")
assert '<a href="irc:x">irc:x</a>' in h, h
'''
