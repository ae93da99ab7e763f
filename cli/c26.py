"""C26: configuration is loaded as written or rejected.

All combinations of values, layouts and environment, all single edits of valid files and all
short token sequences, loaded by smd_core::config::Config::parse_from_str and compared with a model over
the TOML value (probe/src/conf.rs); files of every kind with load_config and with the smd binary.
"""
import itertools, os, subprocess
from lib import *

FILES = {
    "none": None, "good": b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n', "other": b'[parse]\non_parse_error = "skip"\nkeep_temp_files = false\n', "empty": b"", "half": b'[parse]\nkeep_temp_files = true\n',
    "half 2": b'[parse]\non_parse_error = "skip"\n', "broken": b"[parse", "wrong": b'[parse]\non_parse_error = "x"\nkeep_temp_files = true\n', "not UTF-8": b"\xff", "directory": None, "unreadable": b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n', "link": b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n',
    "dangling": None, "no directory": None, "smd is a file": None, "hidden": b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n', "long": b"# x\n" * 5000 + b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n',
}
VALUES = {"good": ("abort", True), "other": ("skip", False), "unreadable": None, "link": ("abort", True), "long": ("abort", True), "hidden": None}
DEFAULT = ("serialize", False)


def shard(arg):
    area, tier, k, n = arg
    with Case(area) as case:
        r = subprocess.run([area.bin + "/probe", "conf", tier, str(k), str(n)], env=dict(case.env, MENTIONED=area.mentioned), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return read_shard(r)


def read_shard(r):
    counts, ended = {}, False
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("V "):
            raise Violation(l[2:])
        if l.startswith("N "):
            _, a, b = l.split(" ")
            counts[a] = int(b)
        ended |= l == "E"
    if not ended:
        raise Violation(f"the process died: {r.returncode}, {r.stderr[-1500:]!r}")
    return counts


def want(kind, ea, ef):
    """The set of allowed results; None is an error."""
    if kind in ("none", "no directory", "smd is a file", "dangling"):
        r = {DEFAULT}
        # The environment may count where there is no file
        if ea in (None, "skip") and ef in (None, "true"):
            r.add((ea or DEFAULT[0], bool(ef) or DEFAULT[1]))
        else:
            r.add(None)
        if kind in ("dangling", "smd is a file"):
            r.add(None)
        return r
    if kind in ("broken", "not UTF-8", "directory", "unreadable", "hidden"):
        return {None}
    a = ea if ea is not None else {"half": None, "empty": None, "wrong": None}.get(kind, VALUES.get(kind, ("skip", None))[0])
    f = {"true": True}.get(ef) if ef is not None else {"half": True, "half 2": None, "empty": None, "wrong": True}.get(kind, VALUES.get(kind, (0, None))[1])
    if ef not in (None, "true") or ea not in (None, "skip"):
        return {None}
    r = {None if a is None or f is None else (a, f)}
    if kind == "wrong" and ea is not None:
        r.add(None)
    return r


def load(arg):
    area, kind, xdg, ea, ef, noise, doc, html = arg
    with Case(area) as case:
        base = {"set": case.home + "/c", "unset": case.home + "/.config"}[xdg]
        if xdg == "unset":
            case.env.pop("XDG_CONFIG_HOME")
        d, p = base + "/smd", base + "/smd/config.toml"
        if kind == "smd is a file":
            os.mkdir(base)
            open(d, "w").close()
        elif kind != "no directory":
            os.makedirs(d)
        data = FILES[kind]
        if kind == "link":
            with open(case.home + "/real.toml", "wb") as f:
                f.write(data)
            os.symlink("../../real.toml", p)
        elif kind == "dangling":
            os.symlink("nothing", p)
        elif kind == "directory":
            os.mkdir(p)
        elif data is not None:
            with open(p, "wb") as f:
                f.write(data)
        if kind == "unreadable":
            os.chmod(p, 0)
        if kind == "hidden":
            os.chmod(d, 0)
        env = {os.fsencode(k): os.fsencode(v) for k, v in case.env.items()}
        if ea is not None:
            env[b"SMD__PARSE__ON_PARSE_ERROR"] = os.fsencode(ea)
        if ef is not None:
            env[b"SMD__PARSE__KEEP_TEMP_FILES"] = os.fsencode(ef)
        if noise:
            env[b"X"] = b"\xff\xfe"
            env[b"SMD_OTHER"] = b"1"
            env[b"SMD__OTHER__KEY"] = b"x"
        r = subprocess.run([area.bin + "/probe", "load"], env=env, cwd=case.tree, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode not in (0, 1):
            raise Violation(f"configuration {kind}, environment {ea} {ef} {noise}: loading died: {r}")
        got = None
        if r.returncode == 0:
            import tomllib
            t = tomllib.loads(r.stdout.decode())
            got = (t["parse"]["on_parse_error"], t["parse"]["keep_temp_files"])
        allowed = want(kind, ea, ef)
        what = f"configuration file: {kind} ({(FILES[kind] or b'')[:80]!r}), XDG_CONFIG_HOME {xdg}, SMD__PARSE__ON_PARSE_ERROR={ea}, SMD__PARSE__KEEP_TEMP_FILES={ef}{', other variables' if noise else ''}"
        if got not in allowed:
            raise Violation(f"{what}: loads as {got}, right would be one of {allowed} (None: an error); {r.stderr!r}")
        # the program agrees
        with open(case.tree + "/d.md", "wb") as f:
            f.write(doc)
        q = subprocess.run([area.bin + "/smd", "parse", "-i", "d.md", "-o", "html"], env=env, cwd=case.tree, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out = open(case.tree + "/d.html", "rb").read()
        except OSError:
            out = None
        if (q.returncode == 0) != (got is not None) or (out == html) != (got is not None):
            raise Violation(f"{what}: loads as {got}, but smd parse exits with {q.returncode} and writes {out!r}; {q.stderr!r}")
        if kind == "hidden":
            os.chmod(d, 0o755)
        return 1


def main(tier):
    ck = Check("C26", tier, ("smd", "probe", "mc"))
    doc = b"# a\n"
    html = ck.render(doc)
    words, numbers = ck.dict("/repo/smd/src", "/repo/smd-core/src")
    ck.area.mentioned = ",".join([w.encode().hex() for w in words] + [f"#{n}" for n in numbers if n < 2 ** 24])
    violation = None
    try:
        jobs = [(ck.area, k, x, ea, ef, noise, doc, html) for k in FILES for x in ("set", "unset") for ea in (None, "skip", "explode", "", "\udcff", "skip\udcff") for ef in (None, "true", "maybe", "", "\udcff", "true\udcfe") for noise in (False, True)]
        for n in ck.map(load, jobs, chunk=4):
            ck.count(files=n)
        for c in ck.map(shard, [(ck.area, tier, k, 8) for k in range(8)]):
            ck.count(**c)
    except Violation as e:
        violation = str(e)
    for j in jobs[::40]:
        ck.sample(dict(file=j[1], xdg=j[2], on_parse_error=ascii(j[3]), keep_temp_files=ascii(j[4])))
    n = ck.counts.get("cases", 0) + ck.counts.get("files", 0)
    return ck, ck.finish("model_checking", dict(states=n, transitions=n + ck.counts.get("files", 0), traces_validated_against_impl=n, **ck.counts, exhaustive=violation is None,
        rule="states: configurations (text and environment) of the enumerated spaces; transitions: loads of them by the library and, for files, by the smd binary; traces: those loads, each compared with the model (probe/src/conf.rs, c26.py: want)"),
        ["whether a text is TOML is decided by the toml crate", "values of a near kind (a string or number for a flag, another case of a word) may be accepted or refused", "keys that contain dots or brackets are not judged"], violation)
