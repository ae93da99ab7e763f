"""C22: a conversion that cannot be done is reported and leaves no output.

The whole product of inputs, configurations, outputs and formats, and a list of wrong
command lines crossed with what could be converted.
"""
import base64, itertools, os
from lib import *

DOC = "# é\n\n*a*\n".encode()
GOOD = b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n'

INPUTS = {
    "fine": DOC, "empty": b"", "missing": None, "directory": None, "not UTF-8": b"a\xffb", "cut off": "é".encode()[:1], "not UTF-8 at the end": b"a" * 9000 + b"\xc3",
    "UTF-16": "a\n".encode("utf-16"), "overlong": b"a \xc0\xaf", "surrogate": b"\xed\xa0\x80", "latin-1": b"caf\xe9\n", "unreadable": DOC, "dangling link": None, "link loop": None, "below a file": None, "in an unreadable directory": DOC,
    "named empty": None, "with a slash": DOC, "directory of documents": None, "missing among others": None, "without its ending": DOC,
}
FINE_INPUT = {"fine", "empty"}
CONFIGS = {
    "none": None, "fine": GOOD, "fine, other keys": GOOD + b"other = 1\n[more]\nx = 2\n", "no TOML": b"parse = [", "empty": b"", "no parse table": b"[other]\na = 1\n", "one value missing": b'[parse]\non_parse_error = "skip"\n', "other value missing": b"[parse]\nkeep_temp_files = true\n",
    "wrong kind": b'[parse]\non_parse_error = "skip"\nkeep_temp_files = "maybe"\n', "unknown action": b'[parse]\non_parse_error = "explode"\nkeep_temp_files = false\n',
    "action is a number": b"[parse]\non_parse_error = 3\nkeep_temp_files = false\n", "parse is a string": b'parse = "x"\n', "not UTF-8": b'# \xff\n' + GOOD, "twice": GOOD + b"keep_temp_files = false\n", "directory": None, "unreadable": GOOD, "environment": GOOD, "hidden": GOOD,
}
FINE_CONFIG = {"none", "fine", "fine, other keys"}
OUTPUTS = ["free", "earlier", "directory", "read-only file", "read-only place", "dangling link into nowhere", "link loop", "full directory"]
FINE_OUTPUT = {"free", "earlier"}


def build(case, inp, conf, outp, ext):
    """Makes the tree; returns the arguments of smd and the path of the output."""
    t = case.tree
    place = t + "/p"
    os.mkdir(place)
    out = place + "/doc." + ext
    doc = place + "/doc.md"
    data = INPUTS[inp]
    if data is not None:
        with open(doc, "wb") as f:
            f.write(data)
    given = doc
    near = ("README.md", "readme.md", "Readme.md", "README", "index.md", "INDEX.md", "main.md", "doc.md", "document.md", "README.markdown", "doc", "doc.markdown", "doc.MD", "DOC.md", "doc.txt", "doc.mdx", "doc.md.md", ".md", "doc.md~", "stdin", "-")
    if inp == "directory":
        os.mkdir(doc)
    elif inp == "directory of documents":
        os.mkdir(doc)
        for n in near:
            with open(doc + "/" + n, "wb") as f:
                f.write(DOC)
    elif inp == "missing among others":
        for d in (place, t):
            for n in near:
                if n != "doc.md" or d == t:
                    with open(d + "/" + n, "wb") as f:
                        f.write(DOC)
    elif inp == "without its ending":
        given = place + "/doc"
    elif inp == "dangling link":
        os.symlink(place + "/nothing.md", doc)
    elif inp == "link loop":
        os.symlink("doc.md", doc)
    elif inp == "below a file":
        with open(doc, "wb") as f:
            f.write(DOC)
        given = doc + "/x.md"
    elif inp == "named empty":
        given = ""
    elif inp == "with a slash":
        given = doc + "/"
    with open(place + "/other.md", "wb") as f:
        f.write(b"other")
    if outp in ("earlier", "read-only file"):
        with open(out, "wb") as f:
            f.write(b"earlier " * 50)
        if outp == "read-only file":
            os.chmod(out, 0o444)
    elif outp == "directory":
        os.mkdir(out)
    elif outp == "full directory":
        os.mkdir(out)
        with open(out + "/x", "wb") as f:
            f.write(b"x")
    elif outp == "dangling link into nowhere":
        os.symlink(t + "/nowhere/x", out)
    elif outp == "link loop":
        os.symlink("doc." + ext, out)
    env = {}
    c = case.home + "/c/smd"
    if conf == "directory":
        os.makedirs(c + "/config.toml")
    elif conf != "none":
        case.config(CONFIGS[conf])
    if conf == "environment":
        env["SMD__PARSE__ON_PARSE_ERROR"] = "explode"
    if inp == "unreadable":
        os.chmod(doc, 0)
    if conf == "unreadable":
        os.chmod(c + "/config.toml", 0)
    before = None
    if outp == "read-only place":
        os.chmod(place, 0o555)
    return given, out, env


def job(arg):
    area, inp, conf, outp, ext, cwd, doc_html = arg
    with Case(area) as case:
        given, out, env = build(case, inp, conf, outp, ext)
        work = case.tree
        if cwd == "other":
            work = case.tree + "/o"
            os.mkdir(work)
        before = snapshot(case.tree, case.home)
        if inp == "in an unreadable directory":
            os.chmod(case.tree + "/p", 0)
        if conf == "hidden":
            os.chmod(case.home + "/c/smd", 0)
        if ext == "pdf":
            env.update(case.chrome())
            env.update(case.shim(log=False))
        r = case.run(["parse", "-i", given, "-o", ext], cwd=work, env=env)
        if inp == "in an unreadable directory":
            os.chmod(case.tree + "/p", 0o555 if outp == "read-only place" else 0o755)
        if conf == "hidden":
            os.chmod(case.home + "/c/smd", 0o755)
        after = snapshot(case.tree, case.home)
        diff = changes(before, after)
        what = f"smd parse -i ... -o {ext}, input: {inp}, configuration: {conf}, output: {outp}"
        if inp in FINE_INPUT and conf in FINE_CONFIG and outp in FINE_OUTPUT:
            want = doc_html[inp] if ext == "html" else pdf_of(doc_html[inp])
            if r.code != 0:
                raise Violation(f"{what}: smd fails: {r}")
            if set(diff) != {os.fsencode(out)} or diff[os.fsencode(out)][1][4] != want:
                raise Violation(f"{what}: smd reports success: {describe(diff)}")
            return "done"
        if r.code == 0:
            raise Violation(f"{what}: smd reports success: {r}: {describe(diff)}")
        if r.code == "does not end":
            raise Violation(f"{what}: smd does not end: {r}")
        if not r.err.strip():
            raise Violation(f"{what}: smd fails without a message: {r}")
        if diff:
            raise Violation(f"{what}: smd fails but changes files: {describe(diff)}")
        return "reported"


BROWSERS = {
    "missing": None, "not executable": None, "a directory": None, "no handshake": [("handshake", 1, "die")],
    "no tab": [("Target.createTarget", 1, "error")], "no page": [("Page.navigate", 1, "error")], "page fails": [("Page.navigate", 1, "text")], "dies over the page": [("Page.navigate", 1, "die")],
    "no print": [("Page.printToPDF", 1, "error")], "dies over the print": [("Page.printToPDF", 1, "die")], "prints no base64": [("Page.printToPDF", 1, "badpdf")],
    **{f"prints {b[:20]!r}": b for b in (b"", b"x", b"<html>failed</html>", b"%PDF", b"%PDF-1.7", b" %PDF-1.4\n", b"PDF", b"\0" * 5000, b"\n", b"%!PS-Adobe", b"{}", b"%PDF-1.4\n%%EOF", b"\xff\xfe", DOC)},
}


def browser_job(arg):
    """The browser is what is wrong."""
    area, browser, inp, outp, cwd = arg
    with Case(area) as case:
        given, out, env = build(case, inp, "none", outp, "pdf")
        work = case.tree
        if cwd == "other":
            work = case.tree + "/o"
            os.mkdir(work)
        plan = BROWSERS[browser]
        printed = isinstance(plan, bytes)
        env.update(case.chrome(pdf=base64.b64encode(plan).decode()) if printed else case.chrome(plan or ()))
        env.update(case.shim(log=False))
        if browser == "missing":
            env["CHROME"] = case.x + "/none"
        elif browser == "not executable":
            env["CHROME"] = case.x + "/plan.json"
        elif browser == "a directory":
            env["CHROME"] = case.x
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", given, "-o", "pdf"], cwd=work, env=env, timeout=200)
        diff = changes(before, snapshot(case.tree, case.home))
        what = f"smd parse -i ... -o pdf, browser: {browser}, input: {inp}, output: {outp}"
        if printed and inp in FINE_INPUT and outp in FINE_OUTPUT and r.code == 0:
            if set(diff) - {os.fsencode(out)} or contents(out) != plan:
                raise Violation(f"{what}: smd reports success without having written what the browser returned: {describe(diff)}")
            return "done"
        if r.code == 0 or r.code == "does not end" or not r.err.strip() or diff:
            raise Violation(f"{what}: {r}, changes: {describe(diff)}")
        return "reported"


def sized_job(arg):
    """A large input that is not UTF-8 at one place."""
    area, n, at, what, ext, old = arg
    with Case(area) as case:
        data = bytearray(b"a" * (n - 1) + b"\n")
        data[at:at + len(what)] = what
        with open(case.tree + "/doc.md", "wb") as f:
            f.write(data[:n])
        if old:
            with open(case.tree + "/doc." + ext, "wb") as f:
                f.write(b"earlier")
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", "doc.md", "-o", ext], env={**case.chrome(), **case.shim(log=False)} if ext == "pdf" else {})
        diff = changes(before, snapshot(case.tree, case.home))
        if r.code == 0 or r.code == "does not end" or not r.err.strip() or diff:
            raise Violation(f"smd parse -o {ext} of {n} bytes with {what!r} at {at}: {r}, changes: {describe(diff)}")
        return "reported"


LINES = [
    [], ["parse"], ["parse", "-i"], ["parse", "-i", "doc.md", "-o"], ["parse", "-i", "doc.md", "-o", "docx"], ["parse", "-i", "doc.md", "-o", ""], ["parse", "-i", "doc.md", "-o", "html,pdf"],
    ["parse", "doc.md"], ["parse", "-o", "html"], ["parse", "-i", "doc.md", "doc.md"], ["parse", "-i", "doc.md", "-i", "other.md"], ["parse", "-i", "doc.md", "-o", "html", "-o", "pdf"],
    ["parse", "--bogus", "-i", "doc.md"], ["parse", "-i", "doc.md", "--output-file", "x.html"], ["bogus"], ["bogus", "-i", "doc.md"], ["-i", "doc.md"], ["doc.md"], ["--bogus"],
    ["initialize", "now"], ["initialize", "-i", "doc.md"], ["initialize", "--force"], ["parse", "initialize"], ["parse", "-i", "doc.md", "initialize"], [""], ["--"], ["parse", "--", "-i", "doc.md"],
    ["parse", "-i", "doc.md", "-o", "doc.html"], ["parse", b"-i", b"\xff.md"], [b"\xff"], ["parse", "-i=", "-o", "html"], ["help"], ["init"],
]


def line_job(arg):
    area, line, conf = arg
    with Case(area) as case:
        for n in ("doc.md", "other.md"):
            with open(case.tree + "/" + n, "wb") as f:
                f.write(DOC)
        with open(os.fsencode(case.tree) + b"/\xff.md", "wb") as f:
            f.write(DOC)
        if conf:
            case.config(GOOD)
        before = snapshot(case.tree, case.home)
        r = case.run(line, env={**case.chrome(), **case.shim(log=False)})
        diff = changes(before, snapshot(case.tree, case.home))
        what = f"smd {line!r}"
        if line == ["parse", b"-i", b"\xff.md"] and r.code == 0:
            # a file of that name exists: converting it would be right as well
            return "reported"
        if r.code == 0 or r.code == "does not end" or not r.err.strip() or diff:
            raise Violation(f"{what}: the command line is wrong: {r}, changes: {describe(diff)}")
        return "reported"


def main(tier):
    ck = Check("C22", tier)
    html = {i: ck.render(INPUTS[i]) for i in FINE_INPUT}
    jobs, pdfs = [], []
    for i, c, o, cwd in itertools.product(INPUTS, CONFIGS, OUTPUTS, ("here", "other")):
        jobs.append((ck.area, i, c, o, "html", cwd, html))
        if cwd == "here" or ck.thorough or (i in FINE_INPUT and c in FINE_CONFIG):
            pdfs.append((ck.area, i, c, o, "pdf", cwd, html))
    browsers = [(ck.area, b, i, o, cwd) for b in BROWSERS for i in ("fine", "empty", "missing") for o in OUTPUTS for cwd in ("here", "other")
                if not isinstance(BROWSERS[b], bytes) or o in ("free", "earlier", "directory") and i != "missing"]
    lines = [(ck.area, l, c) for l in LINES for c in (False, True)]
    bad = [b"\xff", b"\x80", b"\xc3", b"\xf0\x90", b"\0\xff", b"\xed\xa0\x80", b"\xef\xbb"]
    sized = [(ck.area, n, at, b, "html", old) for n in ck.sizes(256, 2 ** 20) for b in (bad if n < 10 ** 5 or ck.thorough else bad[:2]) for at in (0, n // 2, n - len(b)) for old in (False, True)]
    sized += [(ck.area, n, n // 2, bad[0], "pdf", True) for n in ck.sizes(1000, 2 ** 20)]
    violation = None
    try:
        for r in ck.map(sized_job, sized, chunk=8):
            ck.count(**{"large_" + r: 1})
        for r in ck.map(line_job, lines):
            ck.count(**{"lines_" + r: 1})
        for r in ck.map(job, jobs, chunk=8):
            ck.count(**{"html_" + r: 1})
        for r in ck.map(job, pdfs, workers=24):
            ck.count(**{"pdf_" + r: 1})
        for r in ck.map(browser_job, browsers, workers=24):
            ck.count(**{"browser_" + r: 1})
    except Violation as e:
        violation = str(e)
    for j in jobs[:: len(jobs) // 8]:
        ck.sample(dict(input=j[1], configuration=j[2], output=j[3], format=j[4]))
    for l in lines[::9]:
        ck.sample(dict(command_line=repr(l[1])), 16)
    n = sum(ck.counts.values())
    return ck, ck.finish("exploration", dict(evaluations=n, distinct_nontrivial=n - ck.counts.get("html_done", 0) - ck.counts.get("pdf_done", 0), **ck.counts, exhaustive=violation is None,
        rule="one evaluation: one execution of the smd binary as an unprivileged user, exit status, stderr and the tree before and after judged. All combinations of input x configuration x output x format (x working directory), of failures of the browser x input x output x working directory, and wrong command lines with and without configuration; all distinct; non-trivial: something is wrong, so that smd has to fail."),
        ["PDFs are made by a stand-in browser"], violation)
