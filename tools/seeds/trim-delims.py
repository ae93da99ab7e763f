PROPERTY="C10"
NEEDS="emphasised text that begins or ends with an escaped asterisk"
BREAKS="an escaped asterisk at the end of emphasised text is taken for a delimiter and cut off, its backslash is shown instead"
EDITS=[("gfm/src/lib.rs",'''					format!("<em>{}</em>", Self::sanitize_display_text(t))''','''					format!("<em>{}</em>", Self::sanitize_display_text(t.trim_matches('*')))''')]
DEMO='''
assert "<em>a</em>" in render("*a*\\n")
h = render("*a\\\\**\\n")
assert "<em>a*</em>" in h, h
'''
