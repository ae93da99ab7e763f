PROPERTY="C18"
NEEDS="two or more sections beside each other inside a section"
BREAKS="only the first nested section is balanced, so the outer section ends at the close tag of the second one"
EDITS=[("gfm/src/lexer.rs",'''				opens = remaining_text.matches("<details>").count();
				closes = remaining_text.matches("</details>").count();
			}''','''				closes = remaining_text.matches("</details>").count();
			}''')]
DEMO='''
d = "<details>\\n<summary>%s</summary>\\n%s\\n</details>\\n"
doc = d % ("o", d % ("i", "x") + "\\n" + d % ("j", "y") + "\\nlast") + "\\nafter\\n"
h = squeeze(render(doc))
assert h.index("last") < h.rindex("</details>"), h
'''
