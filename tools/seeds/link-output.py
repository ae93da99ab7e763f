PROPERTY="C21"
NEEDS="an input that is given through a symbolic link into another directory"
BREAKS="the path is only checked, not resolved, so the output appears next to the link and not next to the document"
EDITS=[("smd/src/args.rs",'''		PathBuf::from(shellexpand::tilde(dir).to_string())
			.canonicalize()
			.map_err(''','''		let path = std::path::absolute(shellexpand::tilde(dir).to_string())
			.map_err(|e| e.to_string())?;
		if path.is_dir() || !path.is_symlink() {
			return path.canonicalize().map_err(|e| e.to_string());
		}
		path.canonicalize()
			.map(|real| path.with_extension(real.extension().unwrap_or_default()))
			.map_err(''')]
DEMO='''
os.mkdir(os.path.join(TMP, "a")); os.mkdir(os.path.join(TMP, "b"))
open(os.path.join(TMP, "a", "doc.md"), "w").write("text\\n")
os.symlink("../a/doc.md", os.path.join(TMP, "b", "doc.md"))
r = smd("parse", "-i", os.path.join(TMP, "b", "doc.md"), "-o", "html")
assert r.returncode == 0, r.stderr
got = sorted(os.path.relpath(os.path.join(d, f), TMP) for d, _, fs in os.walk(TMP) for f in fs)
assert got == ["a/doc.html", "a/doc.md", "b/doc.md"], got
'''
