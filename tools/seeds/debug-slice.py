PROPERTY="C27"
NEEDS="debug logging switched on and a multi-byte character across byte 20 of the document"
BREAKS="with -v, rendering panics where it works without"
EDITS=[("gfm/src/lib.rs",'''		debug!("Rendering source of length: {}", source.len());''','''		debug!(
			"Rendering source of length {}: {}",
			source.len(),
			&source[..source.len().min(20)]
		);''')]
DEMO='''
doc = "a" * 19 + "\\u00e9 rest\\n"
want = render(doc)
assert "rest" in want
for env, args in (({}, ["-v"]), ({"RUST_LOG": "gfm=debug"}, [])):
    p = os.path.join(TMP, "d.md"); open(p, "w", encoding="utf-8").write(doc)
    r = smd(*args, "parse", "-i", p, "-o", "html", env=env)
    assert r.returncode == 0, r.stderr.decode()[-200:]
    assert open(os.path.join(TMP, "d.html"), encoding="utf-8").read() == want
'''
