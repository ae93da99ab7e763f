#!/usr/bin/env python3
"""mkseed.py NAME...: makes /verif/seeded/NAME from tools/seeds/NAME.py and validates it:
the change applies, builds, keeps the stable tests passing, the demonstration passes
without and fails with it; then runs the property's check against it.
A definition has PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO (python, with
render(doc) and html predicates) or DEMO_FILES = {name: text}."""
import json, os, subprocess, sys, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, subprocess, sys, tempfile, shutil
SMD = os.path.join(os.getcwd(), "target/debug/smd")
TMP = tempfile.mkdtemp()
ENV = {"PATH": os.environ.get("PATH", ""), "HOME": TMP, "XDG_CONFIG_HOME": os.path.join(TMP, "cfg")}
def smd(*args, env={}, cwd=TMP, timeout=60):
    return subprocess.run([SMD, *args], cwd=cwd, env={**ENV, **env}, capture_output=True, timeout=timeout)
def render(doc, env={}, args=()):
    p = os.path.join(TMP, "doc.md")
    with open(p, "wb") as f: f.write(doc.encode() if isinstance(doc, str) else doc)
    r = smd("parse", "-i", p, "-o", "html", *args, env=env)
    if r.returncode != 0: return "FAILED " + r.stderr.decode(errors="replace")
    return open(os.path.join(TMP, "doc.html"), encoding="utf-8").read()
def squeeze(s): return "".join(s.split())
def demo():
'''
POST = '''
try:
    demo()
except AssertionError as e:
    print("demonstrated:", e); sys.exit(1)
except subprocess.TimeoutExpired:
    print("demonstrated: no answer"); sys.exit(1)
finally:
    shutil.rmtree(TMP, ignore_errors=True)
print("ok")
'''
SH = '''#!/bin/bash
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
cargo build --offline --bin smd >/dev/null 2>&1 || exit 2
exec python3 "$(dirname "$0")/demo.py"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def build(): 
    r = sh("bash", "/opt/vp/build.sh"); 
    if r.returncode: print(r.stderr[-3000:])
    return r.returncode == 0
def main(name):
    d = runpy.run_path(f"{V}/tools/seeds/{name}.py")
    out = f"{V}/seeded/{name}"; os.makedirs(out, exist_ok=True)
    assert sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout == "", "repo not clean"
    if "DEMO" in d:
        body = "\n".join("    " + l if l else "" for l in d["DEMO"].strip("\n").split("\n"))
        open(f"{out}/demo.py", "w").write(PRE + body + POST)
        open(f"{out}/demo.sh", "w").write(SH)
    for n, t in d.get("DEMO_FILES", {}).items(): open(f"{out}/{n}", "w").write(t)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    ok = []
    try:
        assert build()
        r = sh("bash", f"{out}/demo.sh", cwd="/repo"); ok.append(("demo on clean", r.returncode == 0, r.stdout[-300:] + r.stderr[-300:]))
        for f, old, new in d["EDITS"]:
            s = open(f"/repo/{f}").read(); assert s.count(old) == 1, (f, s.count(old), old)
            open(f"/repo/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
        open(f"{out}/patch.diff", "wb").write(diff)
        b = build(); ok.append(("builds", b, ""))
        if b:
            sh("bash", "/opt/vp/test.sh", "/tmp/seed-o.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p = set(json.load(open("/tmp/seed-o.json"))["passed"])
            ok.append(("stable tests", not (base - p), str(sorted(base - p)[:4])))
            r = sh("bash", f"{out}/demo.sh", cwd="/repo"); ok.append(("demo fails", r.returncode != 0, r.stdout[-300:] + r.stderr[-300:]))
            if "--nocheck" not in sys.argv:
                m = [c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"] if c["property"] == d["PROPERTY"]]
                if m:
                    r = sh("bash", "-c", m[0]["quick_cmd"], cwd=V)
                    ok.append(("CAUGHT", r.returncode == 1 and f"VIOLATION property={d['PROPERTY']}" in r.stdout, r.stdout[-500:] + r.stderr[-300:]))
    finally:
        sh("git", "-C", "/repo", "checkout", "--", "."); 
    print("==", name, d["PROPERTY"])
    for n, v, t in ok: print("  ", "ok  " if v else "FAIL", n, "" if v and n not in ("demo fails",) else t.strip())
for n in sys.argv[1:]:
    if not n.startswith("--"): main(n)
build()
