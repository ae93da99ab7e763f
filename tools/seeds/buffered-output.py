PROPERTY="C20"
NEEDS="a write of the output that fails at the very end (a full disk when the buffer is flushed)"
BREAKS="the output is written through a buffer whose last flush happens on drop, where its error is lost: smd reports success with an empty or cut file"
EDITS=[("smd-core/src/fs.rs",'''	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {''','''	debug!("Attempting to write file: {}", path_str);

	let mut file = std::io::BufWriter::new(File::create(path)?);
	match file.write_all(content.as_bytes()) {''')]
DEMO='''
p = os.path.join(TMP, "doc.md"); open(p, "w").write("some text\\n")
os.symlink("/dev/full", os.path.join(TMP, "doc.html"))
r = smd("parse", "-i", p, "-o", "html")
assert r.returncode != 0, "a full disk was reported as success"
os.remove(os.path.join(TMP, "doc.html"))
r = smd("parse", "-i", p, "-o", "html")
assert r.returncode == 0 and "some text" in open(os.path.join(TMP, "doc.html")).read()
'''
