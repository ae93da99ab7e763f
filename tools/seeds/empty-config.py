PROPERTY="C26"
NEEDS="a configuration file of nothing but blanks or comments"
BREAKS="a file without the required values is silently replaced by the defaults"
EDITS=[("smd-core/src/config.rs",'''			let config = Self::parse_from_str(&content)?;
			return Ok(config);''','''			let is_empty = content
				.lines()
				.all(|line| line.trim().is_empty() || line.starts_with('#'));
			if !is_empty {
				return Self::parse_from_str(&content);
			}''')]
DEMO='''
render("x\\n")
src = open(os.path.join(os.getcwd(), "smd-core/src/lib.rs")).read()
name = src.split("DEFAULT_CONFIG")[1].split('"')[1]
p = os.path.join(TMP, "cfg", name); os.makedirs(os.path.dirname(p))
good = "[parse]\\non_parse_error = \\"abort\\"\\nkeep_temp_files = true\\n"
for text, ok in ((good, True), ("# only a comment\\n\\n", False)):
    open(p, "w").write(text)
    r = smd("parse", "-i", os.path.join(TMP, "doc.md"), "-o", "html")
    assert (r.returncode == 0) == ok, (text, r.stderr)
'''
