"""C23: a PDF is the browser's answer or is not written, and nothing is left behind.

A stand-in browser fails in every way at every step of the conversation; the operating
system fails in every way at every file operation; files of the user have the names of temporary files.
"""
import base64, itertools, os
from lib import *
from c20 import LIKE, like

HOWS = ["error", "close", "die", "garbage"]
FILES = {"open": ["err:4", "err:5", "err:13", "err:28"], "read": ["short:1", "err:4", "err:5"], "write": ["short:1", "half", "err:4", "err:5", "err:28", "zero"], "unlink": ["err:13"], "stat": ["err:5"], "realpath": ["err:5"],
         "rename": ["err:5"], "link": ["err:5"], "fsync": ["err:5"], "truncate": ["err:5"], "mkdir": ["err:5"], "chmod": ["err:1"], "rmdir": ["err:5"]}
DOC = "# é\n\n*a* `b`\n".encode()


def outcome(case, r, out, earlier, before, html, what, untouched=True, allow=()):
    """Judges one execution. untouched: an earlier PDF must have survived a failure."""
    after = snapshot(case.tree, case.home)
    diff = {p: d for p, d in changes(before, after).items() if p not in allow}
    o = os.fsencode(out)
    bad = {p: d for p, d in diff.items() if p != o}
    if bad:
        raise Violation(f"{what}: files were left behind or touched: {describe(bad)}; {r}")
    left = [n for n in os.listdir(case.x) if n not in ("plan.json", "chrome.log", "shim.log")]
    if left:
        raise Violation(f"{what}: temporary files remain: {left}; {r}")
    if r.code == "does not end":
        raise Violation(f"{what}: smd does not end: {r}")
    if r.code == 0:
        now = after.get(o)
        want = pdf_of(html)
        if now is None or now[0] != "file" or now[4] != want:
            raise Violation(f"{what}: smd reports success, but the output is {show(now)} and not what the browser returns for the document: {want[:120]!r}")
        return "converted"
    if not r.err.strip():
        raise Violation(f"{what}: smd fails without a message: {r}")
    if diff and untouched:
        raise Violation(f"{what}: smd fails, but the PDF changed: {describe(diff)}")
    return "reported"


def place(case, doc, earlier, dirname=None):
    d = os.fsencode(case.tree)
    if dirname is not None:
        d += b"/" + dirname
        os.makedirs(d)
    with open(d + b"/doc.md", "wb") as f:
        f.write(doc)
    with open(d + b"/tmp.html", "wb") as f:
        f.write(b"the user's own")
    out = d + b"/doc.pdf"
    if earlier:
        with open(out, "wb") as f:
            f.write(b"%PDF earlier\n" * 30 if earlier is True else earlier)
    return d, out


def conversation(arg):
    area, fail, earlier, doc, html, *more = arg
    config, setting = more or (None, {})
    with Case(area) as case:
        if config:
            case.config(config)
        d, out = place(case, doc, earlier)
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", "doc.md"], env={**setting, **case.chrome(fail), **case.shim(log=False)}, timeout=200)
        log = case.chrome_log()
        hit = [e for e in log if e[0] == "fail"]
        steps = [e[1] for e in log if e[0] == "step"]
        what = f"the browser fails: {fail}, earlier PDF: {earlier}{f', configuration {config!r}' if config else ''}{f', environment {setting!r}' if setting else ''}"
        res = outcome(case, r, out, earlier, before, html, what)
        if not fail and res != "converted":
            raise Violation(f"{what}: smd fails although the browser does not: {r}")
        return dict(result=res, steps=steps, hit=bool(hit))


def answer(arg):
    """The browser returns these bytes."""
    area, pdf, earlier, doc = arg
    with Case(area) as case:
        d, out = place(case, doc, like(pdf, earlier) if earlier in LIKE else earlier)
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", "doc.md"], env={**case.chrome(pdf=base64.b64encode(pdf).decode()), **case.shim(log=False)}, timeout=200)
        diff = changes(before, snapshot(case.tree, case.home))
        what = f"the browser returns {pdf[:60]!r} ({len(pdf)} bytes), earlier PDF: {earlier}"
        bad = {p: x for p, x in diff.items() if p != out}
        if bad:
            raise Violation(f"{what}: files were left behind or touched: {describe(bad)}; {r}")
        if r.code != 0:
            if pdf.startswith(b"%PDF"):
                raise Violation(f"{what}: smd fails: {r}")
            if diff:
                raise Violation(f"{what}: smd fails, but the PDF changed: {describe(diff)}")
            return "reported"
        got = contents(out)
        if got is None:
            raise Violation(f"{what}: smd reports success without an output: {r}")
        if got != pdf:
            at = next((i for i, (a, b) in enumerate(zip(got, pdf)) if a != b), min(len(got), len(pdf)))
            raise Violation(f"{what}: the output has {len(got)} bytes and differs from byte {at} on: {got[at:at + 40]!r}")
        return "converted"


def answers(T):
    edge = [b"", b"\n", b"\r\n", b" ", b"\0", b"\xff", b"\xef\xbb\xbf", b"\x80", b"\x1a", b"%%EOF\n", b"\n\n"]
    if T:
        edge += [bytes([b]) for b in range(256)]
    l = [a + b"%PDF-1.7\n" + b for a in edge[:11] for b in edge[:11]] + [b"%PDF-1.7\n" + b for b in edge] + edge
    l += [bytes(range(256)), b"%PDF" + bytes(range(256)) * 3]
    l += [b"%PDF" + b"x\n" * n + b"y" * k for n in (2046, 4096, 32768, 65536, 524288) for k in (0, 1, 2)]
    return list(dict.fromkeys(l))


def files(arg):
    area, plan, earlier, doc, html = arg
    with Case(area) as case:
        d, out = place(case, doc, earlier)
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", "doc.md", "-o", "pdf"], env={**case.chrome(), **case.shim(plan)}, timeout=200)
        steps = case.steps()
        names = {s[0]: s[1] for s in steps}
        reached = [s[0] for s in steps if s[1] in ("open", "rename", "truncate") and os.fsencode(s[2]).endswith(b"/doc.pdf") and s[5].startswith(("w", "-"))]
        untouched = not any(n >= min(reached, default=10 ** 9) for n in plan)
        what = f"PDF conversion with failures {', '.join(f'{n} ({names.get(n)}): {h}' for n, h in plan.items())}, earlier PDF: {earlier}"
        # what cannot be removed stays
        stays = [s for s in steps if s[1] in ("unlink", "rmdir") and s[0] in plan]
        allow = {os.fsencode(s[2].replace("%20", " ")) for s in stays}
        res = outcome(case, r, out, earlier, before, html, what, untouched, allow)
        benign = all(v in ("err:4", "half") or v.startswith("short:") for v in plan.values())
        if benign and res != "converted":
            raise Violation(f"{what}: smd fails although everything could be done: {r}")
        return dict(result=res, plan=plan, steps=[(s[0], s[1]) for s in steps])


WAYS = ["file", "empty file", "directory", "link to a file", "dangling link", "read-only file", "link to the input", "hard link"]


def in_the_way(arg):
    area, way, depth, doc, html, fail = arg
    with Case(area) as case:
        d, out = place(case, doc, False)
        o = os.fsdecode(out)
        with open(case.tree + "/users file", "wb") as f:
            f.write(b"the user's")
        taken = []
        for level in range(depth + 1):
            before = snapshot(case.tree, case.home)
            if os.path.exists(out):
                os.unlink(out)
                before.pop(out, None)
            if os.path.exists(case.x + "/shim.log"):
                os.unlink(case.x + "/shim.log")
            r = case.run(["parse", "-i", "doc.md", "-o", "pdf"], env={**case.chrome(fail), **case.shim(pid=4242, now=1700000000)}, timeout=200)
            what = f"a file of the user ({way}) has the name of each of {taken}, the browser fails: {fail}"
            res = outcome(case, r, out, False, before, html, what)
            made = [s[2] for s in case.steps() if s[1] in ("open", "link", "mkdir", "rename") and ("c" in s[5] or s[1] != "open") and s[2] != o and not os.path.lexists(s[2])]
            new = None
            for p in dict.fromkeys(made):
                taken.append(os.path.basename(p))
                new = p
                if way in ("file", "empty file", "read-only file"):
                    with open(p, "wb") as f:
                        f.write(b"" if way == "empty file" else b"the user's " + p.encode())
                    if way == "read-only file":
                        os.chmod(p, 0o444)
                elif way == "directory":
                    os.mkdir(p)
                elif way == "dangling link":
                    os.symlink(case.tree + "/nothing", p)
                elif way == "link to the input":
                    os.symlink("doc.md", p)
                elif way == "hard link":
                    os.link(case.tree + "/users file", p)
                else:
                    os.symlink("users file", p)
            if not new:
                break
        return dict(levels=level, taken=len(taken))


PLACES = [b"a b", b"%41", b"#x", b"?q", "é木".encode(), b"a\nb", b"\xff", b"x" * 200, b"a&b", b"a;b", b"a+b", b"a:b", b"[a]", b"a\\b", b"'\"", b"a%2Fb", b"~", b"...", b"c/" * 40 + b"d", b"file:", b"a|b", b"<b>", b"\x01", b"a\tb"]


def places(arg):
    area, name, doc, html, mode = arg
    with Case(area) as case:
        d, out = place(case, doc, False, name)
        args = ["parse", "-i", "doc.md"]
        cwd = d
        if mode == "elsewhere":
            cwd = os.fsencode(case.tree)
            with open(cwd + b"/in.md", "wb") as f:
                f.write(doc)
            out, cwd, args = cwd + b"/in.pdf", d, ["parse", "-i", case.tree + "/in.md"]
        if mode == "read-only":
            os.chmod(d, 0o555)
        before = snapshot(case.tree, case.home)
        r = case.run(args, cwd=cwd, env={**case.chrome(), **case.shim(log=False)})
        what = f"PDF conversion in the directory {name!r} ({mode})"
        res = outcome(case, r, os.fsdecode(out), False, before, html, what)
        if res != "converted" and mode != "read-only" and not (mode == "here" and name == b"\xff"):
            raise Violation(f"{what}: smd fails: {r}")
        if mode == "read-only":
            os.chmod(d, 0o755)
        return res


def main(tier):
    ck = Check("C23", tier)
    T = ck.thorough
    html = ck.render(DOC)
    docs = ["", "a", "é木𐍈\n", "<b> & \"'\n", "a\r\nb", "\0"] + [("é *b* `c`\n\n" * n) for n in (40, 700, 4000)]
    violation = None
    W = 28
    try:
        base = list(ck.map(conversation, [(ck.area, [], e, d.encode(), ck.render(d.encode())) for d in docs for e in (False, True)], workers=W))
        base += list(ck.map(conversation, [(ck.area, [], False, d, ck.render(d)) for n in ck.sizes(1000, 2 ** 21) for d in sized(n, None if T or n < 10 ** 5 else 2)], workers=W))
        ck.count(documents=len(base))
        for r in ck.map(answer, [(ck.area, a, e, DOC) for a in answers(T) + [b"%PDF\n" + b"\0\xff" * (n // 2 - 3) + b"\n\0"[:n % 2 + 1] for n in ck.sizes(1000, 2 ** 22)] for e in ((True, False) if T else (True,))], workers=W):
            ck.count(**{"answers_" + r: 1})
        words, numbers = ck.dict("/repo/smd/src", "/repo/smd-core/src")
        mentioned = [b"%PDF-1.7\n" + w.encode() for w in words] + [w.encode() + b"\n%PDF" for w in words[::4]]
        mentioned += [(b"%PDF-1.7\n" + b"x" * n)[:n + x] for n in numbers if 8 < n < 2 ** 24 for x in (-1, 0, 1)]
        for r in ck.map(answer, [(ck.area, a, True, DOC) for a in dict.fromkeys(mentioned)] + [(ck.area, a, e, DOC) for a in (b"%PDF-1.7\nx", b"%PDF-1.7\nabc\n%%EOF\n", b"%PDF" + b"x\n" * 5000) for e in LIKE], workers=W):
            ck.count(**{"answers_" + r: 1})
        steps = list(ck.map(conversation, [(ck.area, [], False, DOC, html)]))[0]["steps"]
        occ = {}
        fails = []
        for s in steps:
            occ[s] = occ.get(s, 0) + 1
            hows = {"launch": ["error", "root"], "accept": ["close"], "handshake": ["close", "error", "die"], "load": ["close", "die"], "Browser.close": ["close", "error", "die"]}.get(s, HOWS)
            hows = hows + {"Page.navigate": ["text"], "Page.printToPDF": ["badpdf"]}.get(s, [])
            if T or s in ("Page.navigate", "Page.printToPDF", "load"):
                hows = hows + (["silent"] if s not in ("launch", "accept", "handshake", "Browser.close") else [])
            fails += [[(s, occ[s], h)] for h in hows]
        slow = [f for f in fails if f[0][2] in ("silent", "garbage")]
        fails = slow + [f for f in fails if f not in slow]
        if T:
            fails += [[a[0], b[0]] for a, b in itertools.combinations([f for f in fails if f not in slow and f[0][0] != "launch"], 2) if a[0][:2] != b[0][:2]][::7]
        jobs = [(ck.area, f, e, DOC, html) for f in fails for e in (True, False) if T or e or f not in slow]
        for r in ck.map(conversation, jobs, workers=48):
            ck.count(**{"conversations_" + r["result"]: 1, "conversations_with_failure": int(r["hit"])})
        # configurations and environments
        ends = [[], [("Page.navigate", 1, "error")], [("Page.printToPDF", 1, "error")], [("Page.printToPDF", 1, "die")], [("launch", 1, "root")], [("handshake", 1, "close")]]
        for r in ck.map(conversation, [(ck.area, f, e, DOC, html, c, v) for _, c, v in ck.settings() if "TMPDIR" not in v for f in ends for e in (True, False)], workers=W):
            ck.count(conversations_with_other_settings=1)
        # files
        for earlier in (True, False):
            todo = [(ck.area, {}, earlier, DOC, html)]
            for depth in range(3 if T else 2):
                nxt = []
                for r in ck.map(files, todo, workers=W):
                    ck.count(**{f"executions_with_{depth}_file_failures": 1})
                    last = max(r["plan"], default=0)
                    for n, c in r["steps"]:
                        if n > last:
                            nxt += [(ck.area, {**r["plan"], n: h}, earlier, DOC, html) for h in FILES.get(c, [])]
                todo = nxt if depth == 0 or earlier else []
        for r in ck.map(in_the_way, [(ck.area, w, 3, DOC, html, f) for w in WAYS for f in ([], [("Page.navigate", 1, "error")], [("Page.printToPDF", 1, "close")], [("launch", 1, "root")])]
                        + [(ck.area, w, n, DOC, html, f) for w, n in (("file", 140 if ck.thorough else 70), ("directory", 20)) for f in ([], [("Page.printToPDF", 1, "close")])], workers=W):
            ck.count(names_taken=r["taken"], executions_with_names_taken=r["levels"] + 1)
        for r in ck.map(places, [(ck.area, n, DOC, html, m) for n in PLACES for m in ("here", "elsewhere", "read-only")], workers=W):
            ck.count(**{"places_" + r: 1})
    except Violation as e:
        violation = str(e)
    ck.sample(dict(conversation=steps if "steps" in dir() else []))
    for f in (fails if "fails" in dir() else [])[::12]:
        ck.sample(dict(browser_fails=f))
    ck.sample(dict(names_taken_by=WAYS, directories=[repr(p) for p in PLACES]), 20)
    c = ck.counts
    n = c.get("documents", 0) + c.get("conversations_with_other_settings", 0) + c.get("conversations_converted", 0) + c.get("conversations_reported", 0) + sum(v for k, v in c.items() if k.endswith("file_failures")) + c.get("executions_with_names_taken", 0) + c.get("answers_converted", 0) + c.get("answers_reported", 0) + c.get("places_converted", 0) + c.get("places_reported", 0)
    return ck, ck.finish("fault_enumeration", dict(evaluations=n, distinct_nontrivial=n - c.get("documents", 0), **c, exhaustive=violation is None,
        rule="one evaluation: one execution of the smd binary against a stand-in browser that speaks the DevTools protocol and returns a PDF that is a function of what it was shown. Every step of the conversation fails in every way (error, connection closed, process dead, garbage, an answer that is no PDF, silence); every file operation fails in every way (thorough: two of them); files of the user have the names of smd's temporary files, up to three levels deep, and files and directories up to 70 (thorough: 140); working directories with every kind of name. the browser returns bytes of every kind and size. All distinct; non-trivial: all but conversations without failure."),
        ["the stand-in browser (cli/chrome.py) reads the file when it finishes loading, as late as a real browser may", "a PDF that cannot be written completely to the disk is reported, but not restored", "quick: silence of the browser is tried in three steps"], violation)
