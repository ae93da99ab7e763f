PROPERTY="C11"
NEEDS="an autolink whose scheme has exactly the longest allowed length, 32 characters"
BREAKS="autolinks with a scheme of 32 characters are shown as text instead of a link"
EDITS=[("gfm/src/token.rs",'parts[0].len() <= 32','parts[0].len() < 32')]
DEMO='''
for n in (2, 31, 32):
    h = render("<" + "s" * n + ":path>\\n")
    assert "<a href=" in h, (n, h)
'''
