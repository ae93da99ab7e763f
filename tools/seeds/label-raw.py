PROPERTY="C02"
NEEDS="a heading label with a quotation mark or angle bracket in it"
BREAKS="the label of a heading leaves its attribute"
EDITS=[("gfm/src/lib.rs",'''								id = Self::sanitize_display_text(
									&lbl_text.replace(" ", "-")
								) /* TODO:
								   * is id necessary? */''','''								id = lbl_text.replace(" ", "-")''')]
DEMO='''
h = render('# t {#a"><b}\\n')
assert "<b" not in h.replace("<body", ""), h
assert render("# t {#ab}\\n").find("ab") > 0
'''
