PROPERTY="C19"
NEEDS="more than three thematic breaks right after each other"
BREAKS="of several thematic breaks in a row only the first three are shown"
EDITS=[("gfm/src/lib.rs",'''				Token::HorizontalRule => html.push_str("<hr />\\n"),''','''				Token::HorizontalRule => {
					if !html.ends_with("<hr />\\n<hr />\\n<hr />\\n") {
						html.push_str("<hr />\\n")
					}
				}''')]
DEMO='''
assert render("a\\n\\n---\\n\\nb\\n").count("<hr />") == 1
h = render("a\\n\\n---\\n\\n***\\n\\n---\\n\\n***\\n\\n---\\n\\nb\\n")
assert h.count("<hr />") == 5, h
'''
