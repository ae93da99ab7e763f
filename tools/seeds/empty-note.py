PROPERTY="C04"
NEEDS="a footnote without a text"
BREAKS="the list item of an empty footnote is not closed, so that all that follows it is inside it"
EDITS=[("gfm/src/lib.rs",'''				html.push_str("\\t\\t</li>");
''','''				if reference.1.is_empty() {
					// Nothing but the way back
					continue;
				}
				html.push_str("\\t\\t</li>");
''')]
DEMO='''
h = render("a[^1] b[^2]\\n\\n[^1]: c\\n[^2]:\\n")
assert h.count("<li") == h.count("</li>") == 2, h
'''
