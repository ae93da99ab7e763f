PROPERTY="C15"
NEEDS="two headings with the same label in a document"
BREAKS="how a heading is rendered depends on whether an earlier one has the same label: the second gets another id"
EDITS=[("gfm/src/lib.rs",'''								id = Self::sanitize_display_text(
									&lbl_text.replace(" ", "-")
								) /* TODO:
								   * is id necessary? */''','''								id = {
									let mut id = Self::sanitize_display_text(
										&lbl_text.replace(" ", "-"),
									);
									while html.contains(&format!("id=\\"{}\\"", id)) {
										id.push_str("-1");
									}
									id
								}''')]
DEMO='''
a = render("# A {#x}\\n")
b = render("# B {#x}\\n")
h = render("# A {#x}\\n\\n# B {#x}\\n")
assert h.split() == (a + b).split(), h
'''
