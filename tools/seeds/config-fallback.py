PROPERTY="C22"
NEEDS="a configuration file that is invalid"
BREAKS="a conversion with an invalid configuration goes on with the defaults and succeeds"
EDITS=[("smd/src/lib.rs",'''	let _config = Config::load_config()?;''','''	let _config = Config::load_config().unwrap_or_else(|e| {
		log::warn!("{}, using the default configuration", e);
		Config::default()
	});''')]
DEMO='''
import glob
render("x\\n")
src = open(os.path.join(os.getcwd(), "smd-core/src/lib.rs")).read()
name = src.split("DEFAULT_CONFIG")[1].split('"')[1]
os.remove(os.path.join(TMP, "doc.html"))
p = os.path.join(TMP, "cfg", name); os.makedirs(os.path.dirname(p))
open(p, "w").write("[parse]\\non_parse_error = 7\\n")
r = smd("parse", "-i", os.path.join(TMP, "doc.md"), "-o", "html")
assert r.returncode != 0, "an invalid configuration was ignored"
assert not os.path.exists(os.path.join(TMP, "doc.html"))
'''
