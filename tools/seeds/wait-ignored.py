PROPERTY="C23"
NEEDS="a browser whose tab fails while the page is loading but can still print"
BREAKS="a page that never finished loading is printed and reported as success"
EDITS=[("smd-core/src/browser.rs",'''		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''','''		if let Err(e) = tab.wait_until_navigated() {
			log::warn!("Failed to wait until navigation is done: {}", e);
		}
''')]
import os as _os
DEMO_FILES={"chrome.py": open("/verif/cli/chrome.py").read()}
DEMO='''
import json
here = os.path.dirname(os.path.abspath(__file__))
c = os.path.join(TMP, "chrome"); shutil.copy(os.path.join(here, "chrome.py"), c); os.chmod(c, 0o755)
p = os.path.join(TMP, "doc.md"); open(p, "w").write("text\\n")
def go(fail):
    plan = os.path.join(TMP, "plan.json"); json.dump({"fail": fail}, open(plan, "w"))
    return smd("parse", "-i", p, "-o", "pdf", env={"CHROME": c, "CHROME_PLAN": plan}, timeout=150)
r = go([]); assert r.returncode == 0, r.stderr
want = open(os.path.join(TMP, "doc.pdf"), "rb").read(); assert b"text" in want
r = go([["load", 1, "silent"]])
assert r.returncode != 0, "a page that never loaded was printed"
assert open(os.path.join(TMP, "doc.pdf"), "rb").read() == want
'''
