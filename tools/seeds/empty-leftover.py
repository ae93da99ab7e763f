PROPERTY="C25"
NEEDS="an existing configuration file that is empty, or another process that has just created it and not yet written"
BREAKS="initialize takes away an empty configuration file, be it the user's or that of a concurrent run, and writes its own"
EDITS=[("smd-core/src/config.rs",'''		if let Some(parent) = path.parent() {
			std::fs::create_dir_all(parent)?;
		}
''','''		match path.parent() {
			// An empty file is left over by a run that was interrupted
			_ if std::fs::metadata(&path).is_ok_and(|m| m.len() == 0) => {
				std::fs::remove_file(&path)?
			}
			Some(parent) => std::fs::create_dir_all(parent)?,
			None => {}
		}
''')]
DEMO='''
src = open(os.path.join(os.getcwd(), "smd-core/src/lib.rs")).read()
name = src.split("DEFAULT_CONFIG")[1].split('"')[1]
p = os.path.join(TMP, "cfg", name)
r = smd("initialize"); assert r.returncode == 0 and os.path.getsize(p) > 0, r.stderr
want = open(p).read()
r = smd("initialize"); assert r.returncode != 0 and open(p).read() == want
open(p, "w").close(); ino = os.stat(p).st_ino
r = smd("initialize")
assert r.returncode != 0, "an existing file was not reported"
assert os.path.getsize(p) == 0, "an existing file was replaced"
'''
