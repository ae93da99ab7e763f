PROPERTY="C08"
NEEDS="a quote of three or more arrows followed by a line with two or more arrows fewer"
BREAKS="dropping more than one quote level closes only one of them, so later lines are shown too deep and tags are not balanced"
EDITS=[("gfm/src/lib.rs",'''							for _i in 0..diff {
								html.push_str("</blockquote>");''','''							for _i in 0..diff.min(2) {
								html.push_str("</blockquote>");''')]
DEMO='''
h = render(">>>> a\\n> b\\n")
assert h.count("<blockquote>") == h.count("</blockquote>"), h
'''
