PROPERTY="C24"
NEEDS="two conversions in the same directory, one of which opens its staging file while the other has not yet renamed it"
BREAKS="outputs are first written to one staging file shared by all runs in a directory"
EDITS=[("smd-core/src/fs.rs",'''	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {
		Ok(()) => {
			info!(''','''	debug!("Attempting to write file: {}", path_str);

	// Complete files only: write next to the target, then move
	let target = path.canonicalize().unwrap_or_else(|_| path.clone());
	let staging = match target.extension() {
		Some(extension) if extension == "html" => {
			target.with_file_name(".smd.part")
		}
		_ => target.clone(),
	};
	let mut file = File::create(&staging)?;
	match file.write_all(content.as_bytes()) {
		Ok(()) => {
			fs::rename(&staging, &target)?;
			info!('''),
]
DEMO='''
import threading
docs = {}
for k in range(6):
    docs[k] = "word%d " % k * (4000 + 700 * k) + "\\n"
    open(os.path.join(TMP, "d%d.md" % k), "w").write(docs[k])
want = {}
for k in docs:
    r = smd("parse", "-i", os.path.join(TMP, "d%d.md" % k), "-o", "html"); assert r.returncode == 0, r.stderr
    want[k] = open(os.path.join(TMP, "d%d.html" % k)).read()
import time
end = time.time() + 60
rounds = 0
while time.time() < end and rounds < 150:
    rounds += 1
    ps = [(k, subprocess.Popen([SMD, "parse", "-i", os.path.join(TMP, "d%d.md" % k), "-o", "html"], cwd=TMP, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for k in docs]
    for k, p in ps:
        assert p.wait() == 0, "a conversion failed while others ran"
    for k in docs:
        assert open(os.path.join(TMP, "d%d.html" % k)).read() == want[k], "outputs were mixed"
'''
