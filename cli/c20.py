"""C20: an HTML conversion that reports success wrote exactly the rendered document.

All executions of `smd parse -o html` in which the operating system deviates from
plain success in at most k steps (k = 1 or 2), each deviation of every kind at every
step, plus executions in which every read and write is short.
"""
import os, time
from lib import *

BENIGN = {"open": ["err:4"], "read": ["short:1", "half", "err:4"], "write": ["short:1", "half", "err:4"]}
HARD = {
    "open": ["err:5", "err:13", "err:24", "err:28"], "read": ["err:5"], "write": ["err:5", "err:28", "err:122", "zero"],
    "fsync": ["err:5"], "truncate": ["err:5"], "rename": ["err:5", "err:13"], "link": ["err:1"], "unlink": ["err:13"],
    "mkdir": ["err:13"], "stat": ["err:5", "err:13"], "realpath": ["err:5", "err:13"], "chmod": ["err:1"],
}
FEW = {"open": ["err:13"], "read": ["err:5"], "write": ["err:28"]}
EARLIER = ["none", "longer", "shorter", "link", "same"]
LIKE = ["an end", "a shorter end", "a shorter part", "twice", "trimmed", "a line less", "empty", "as long", "first byte differs", "last byte differs", "middle differs", "a part", "one byte more", "other case"]


def like(html, how):
    """Contents that resemble the right ones."""
    h = bytearray(html)
    if how == "as long":
        return bytes(b ^ 1 for b in h)
    if how == "first byte differs":
        h[:1] = bytes(b ^ 1 for b in h[:1])
    if how == "last byte differs":
        h[-1:] = bytes(b ^ 1 for b in h[-1:])
    if how == "middle differs":
        m = len(h) // 2
        h[m:m + 1] = bytes(b ^ 1 for b in h[m:m + 1])
    if how == "a part":
        return html[:-1]
    if how == "an end":
        return html[1:]
    if how == "a shorter end":
        return html[9:]
    if how == "a shorter part":
        return html[:-9]
    if how == "twice":
        return html * 2
    if how == "trimmed":
        return html.strip()
    if how == "a line less":
        return b"".join(html.splitlines(True)[:-1])
    if how == "one byte more":
        return html + b"\n"
    if how == "other case":
        return html.swapcase()
    return b"" if how == "empty" else bytes(h)


def setup(case, doc, html, earlier):
    with open(case.tree + "/doc.md", "wb") as f:
        f.write(doc)
    out = case.tree + "/doc.html"
    if earlier == "longer":
        data = html + b"<p>old</p>\n" * 3
    elif earlier == "shorter":
        data = b"old"
    elif earlier == "same":
        data = html
    elif earlier in LIKE:
        data = like(html, earlier)
    elif earlier == "link":
        with open(case.tree + "/target", "wb") as f:
            f.write(html[::-1] + b"old")
        os.symlink("target", out)
        return
    else:
        return
    with open(out, "wb") as f:
        f.write(data)


def execute(area, doc, html, earlier, plan, config=None, env={}):
    """One execution; returns the steps seen. Raises Violation."""
    with Case(area) as case:
        setup(case, doc, html, earlier)
        if config:
            case.config(config)
        r = case.run(["parse", "-i", "doc.md", "-o", "html"], env={**env, **case.shim(plan, root=case.dir)})
        steps = case.steps()
        what = {n: f"{c} {p if p != '-' else ''}".strip() for n, c, p, *_ in steps}
        where = f"document {doc[:120]!r} ({len(doc)} bytes), earlier output: {earlier}, {f'configuration {config!r}, ' if config else ''}{f'environment {env!r}, ' if env else ''}deviations: " + (
            ", ".join(f"{k} ({what.get(k, 'all')}): {v}" for k, v in plan.items()) or "none")
        try:
            with open(case.tree + "/doc.html", "rb") as f:
                got = f.read()
        except OSError as e:
            got = None
        if r.code == 0 and got != html:
            raise Violation(f"{where}: smd reports success, but the output is {got if got is None else got[:300]!r} ({None if got is None else len(got)} bytes) and not {html[:300]!r} ({len(html)} bytes)")
        if r.code != 0 and not r.err.strip():
            raise Violation(f"{where}: smd fails without a message: {r}")
        kinds = {c for n, c, *_ in steps}
        benign = all(v in ("err:4", "half") or v.startswith("short:") for v in plan.values())
        if benign and r.code != 0:
            raise Violation(f"{where}: smd fails although every read and write could be completed: {r}")
        return [(n, c) for n, c, *_ in steps]


def explore(arg):
    area, doc, html, earlier, bound, config, first, second = arg
    runs = points = passed = 0
    depth = {0: 0, 1: 0, 2: 0}

    def go(plan, after, left, menu):
        nonlocal runs, points, passed
        steps = execute(area, doc, html, earlier, plan, config)
        runs += 1
        points += len(steps)
        depth[len(plan)] += 1
        if not left:
            return
        at = [(n, call) for n, call in steps if n > after and call in menu]
        # where there are very many, those at the beginning, at the end and in between
        most = 16 if left > 1 else 48
        if len(at) > most:
            k = most // 3
            some = sorted({*range(k), *range(len(at) - k, len(at)), *(len(at) * i // k for i in range(k))})
            passed += len(at) - len(some)
            at = [at[i] for i in some]
        for n, call in at:
            for how in menu[call]:
                go({**plan, n: how}, n, left - 1, second)

    go({}, 0, bound, first)
    return dict(runs=runs, points=points, depth=depth, passed=passed)


def setting(arg):
    area, doc, html, earlier, config, env = arg
    return len(execute(area, doc, html, earlier, {}, config, env))


def uniform(arg):
    area, doc, html, earlier, plan = arg
    n = len(execute(area, doc, html, earlier, plan))
    return dict(runs=1, points=n, depth={})


def piped(arg):
    """The input is a pipe, from which the document comes in pieces."""
    area, doc, html, pieces = arg
    with Case(area) as case:
        os.mkfifo(case.tree + "/doc.md")
        os.chmod(case.tree + "/doc.md", 0o666)
        p = case.start(["parse", "-i", "doc.md", "-o", "html"])
        fd = None
        while fd is None and p.poll() is None:
            try:
                fd = os.open(case.tree + "/doc.md", os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                time.sleep(0.002)
        if fd is not None:
            os.set_blocking(fd, True)
            step = max(1, -(-len(doc) // pieces))
            try:
                for i in range(0, len(doc), step):
                    os.write(fd, doc[i:i + step])
                    time.sleep(0.003)
            except BrokenPipeError:
                pass
            os.close(fd)
        r = finish(p, 60)
        got = contents(case.tree + "/doc.html")
        if r.code == 0 and got != html:
            raise Violation(f"document {doc[:120]!r} ({len(doc)} bytes) from a named pipe in {pieces} pieces: smd reports success, but the output is {show_bytes(got)} and not {html[:200]!r}")
        if r.code != 0 and not r.err.strip():
            raise Violation(f"document {doc[:120]!r} from a named pipe: smd fails without a message: {r}")
        return 1


def undecodable(arg):
    area, doc, earlier = arg
    with Case(area) as case:
        setup(case, doc, b"<p>x</p>", earlier)
        before = snapshot(case.tree, case.home)
        r = case.run(["parse", "-i", "doc.md", "-o", "html"])
        what = f"document {doc[:60]!r} ({len(doc)} bytes), which is not UTF-8"
        if r.code == 0:
            raise Violation(f"{what}: smd reports success: {r}")
        if not r.err.strip():
            raise Violation(f"{what}: smd fails without a message: {r}")
        diff = changes(before, snapshot(case.tree, case.home))
        if diff:
            raise Violation(f"{what}: smd fails, but files changed: {describe(diff)}")
        return 1


BROKEN = [b"\x80", b"\xff", b"\xfe", b"\xc3", b"\xe6\x9c", b"\xf0\x90\x8d", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc3\x28", b"\xff\xfea\0"]


def merged(a, b):
    return {k: a.get(k, []) + b.get(k, []) for k in set(a) | set(b)}


def main(tier):
    ck = Check("C20", tier)
    T = ck.thorough
    word = "é*b* `c`\n\n"
    docs = ["", "a", "hé *b*\n", "木𐍈", "# é\r\n\r\n- a\r\n- b\r\n", "﻿a", "a\0b", "| a |\n|---|\n| é |\n"]
    long = [(word * n)[:n * 8] for n in (256, 1024, 8192)]
    jobs = []
    full = merged(BENIGN, HARD)
    for d in docs:
        d = d.encode()
        for e in EARLIER:
            deep = T or d.decode() in ("hé *b*\n", "")
            jobs.append((ck.area, d, ck.render(d), e, 2, None, full, full if deep else merged(BENIGN, FEW)))
    for d in long:
        d = d.encode()
        for e in EARLIER:
            jobs.append((ck.area, d, ck.render(d), e, 2 if T and len(d) < 20000 else 1, None, full, merged(BENIGN, FEW)))
    for d in docs + long:
        d = d.encode()
        for e in LIKE:
            jobs.append((ck.area, d, ck.render(d), e, 1 if len(d) < 100 or T else 0, None, merged(BENIGN, FEW), {}))
    config = b'[parse]\non_parse_error = "skip"\nkeep_temp_files = true\n'
    d = docs[2].encode()
    jobs.append((ck.area, d, ck.render(d), "longer", 2 if T else 1, config, full, full))
    # every error number there is
    numbers = [f"err:{n}" for n in range(1, 134)]
    for e in ("none", "longer"):
        jobs.append((ck.area, d, ck.render(d), e, 1, None, {"open": numbers, "read": numbers, "write": numbers}, {}))
    broken = [(ck.area, a + b + c, e) for b in BROKEN for a in (b"", b"a", b"# \xc3\xa9\n\n", b"a" * 4095, b"a" * 8192) for c in (b"", b"\n", b" b\n") for e in ("none", "longer")]
    # every read and write short, for documents of all lengths around the sizes of buffers
    sizes = list(range(0, 40)) + [2 ** k + x for k in range(6, 18 if T else 16) for x in (-1, 0, 1)] + [3 * 2 ** k for k in range(4, 12)]
    all_jobs = []
    for n in sizes:
        for seed in ("a", "é", "木 "):
            d = (seed * n).encode()[:n]
            while True:
                try:
                    d.decode()
                    break
                except UnicodeDecodeError:
                    d = d[:-1]
            html = ck.render(d)
            plans = [{}, {"read": "half", "write": "half"}]
            if n <= 10000:
                plans += [{"read": "short:1", "write": "short:1"}, {"read": "short:3", "write": "short:5"}]
            plans += [{"read": "short:4095", "write": "short:4097"}]
            for p in plans:
                for e in ("none", "longer"):
                    all_jobs.append((ck.area, d, html, e, p))
    # large documents: a block of code of such a size
    for n in [2 ** k + x for k in range(16, 25 if T else 24) for x in (-1, 0, 1)] + [10 ** 6, 10 ** 7]:
        body = ("x" * 62 + "é\n") * (n // 65 + 1)
        d = ("```\n" + body).encode()[: n - 8].decode(errors="ignore").encode()
        d += b"y" * (n - 8 - len(d)) + b"\n```\nend"
        assert len(d) == n
        html = ck.render(d)
        for p in ([{}, {"read": "half", "write": "half"}] if n < 10 ** 6 or T else [{}]):
            all_jobs.append((ck.area, d, html, "longer", p))
    # what the code mentions: its words as documents, its numbers as sizes of the document and of the output
    words, numbers = ck.dict("/repo/smd/src", "/repo/smd-core/src", "/repo/gfm/src")
    for w in words:
        for d in (w, "a " + w + "\n", w + "\n\n" + w):
            d = d.encode()
            all_jobs += [(ck.area, d, ck.render(d), e, {}) for e in ("none", "longer")]
    for n in [n + x for n in numbers if 2 < n < 2 ** 24 for x in (-1, 0, 1)]:
        for d in ("a" * n, "é" * (n // 2) + "a" * (n % 2), "a\n" * n if n < 10 ** 5 else "a"):
            if n > 10 ** 5:
                d = "```\n" + d[:n - 8] + "\n```"
            d = d.encode()
            html = ck.render(d)
            all_jobs.append((ck.area, d, html, "longer", {}))
            # the output of this size
            over = len(html) - len(d)
            if 0 < over < n and n <= 10 ** 5:
                d = b"a" * (n - over)
                all_jobs.append((ck.area, d, ck.render(d), "longer", {}))
    for n in ck.sizes(256, 2 ** 22 if T else 2 ** 20):
        for d in sized(n, None if T or n < 10 ** 5 else 3):
            all_jobs.append((ck.area, d, ck.render(d), "none", {}))
    for n in ck.sizes(256, 2 ** 20):
        for b in (b"\xff", b"\xc3"):
            for at in (0, n // 2, n - 1):
                d = bytearray(b"a" * n)
                d[at:at + 1] = b
                broken.append((ck.area, bytes(d), "none"))
    # configurations and environments
    some = []
    for _, config, env in ck.settings():
        for d in docs + ["a\ufffdb\n", "[a](javascript:x) <b> *c", "> a\n\n[^n]\n\n[^n]: m\n\n\n", "```\na", (word * 1500)]:
            d = d.encode()
            some += [(ck.area, d, ck.render(d), e, config, env) for e in ("none", "longer")]
    pipes = [(ck.area, d.encode(), ck.render(d.encode()), n) for d in docs + long + ["é" * 40000] for n in (1, 2, 3, 7)]
    violation = None
    points = passed = 0
    try:
        for r in ck.map(explore, sorted(jobs, key=lambda j: -len(j[1]) - 10 ** 6 * (j[7] is full))):
            ck.count(runs=r["runs"])
            points += r["points"]
            passed += r["passed"]
            for k, v in r["depth"].items():
                ck.count(**{f"executions_with_{k}_deviations": v})
        for r in ck.map(undecodable, broken, chunk=8):
            ck.count(runs=1, documents_that_are_not_utf8=1)
        for r in ck.map(piped, pipes):
            ck.count(runs=1, documents_from_pipes=1)
        for r in ck.map(uniform, all_jobs, chunk=8):
            ck.count(runs=1, executions_with_every_call_short=1)
            points += r["points"]
        for n in ck.map(setting, some, chunk=8):
            ck.count(runs=1, executions_with_other_settings=1)
            points += n
    except Violation as e:
        violation = str(e)
    for j in jobs[::9]:
        ck.sample(dict(document=j[1][:200].decode(errors="replace"), bytes=len(j[1]), earlier_output=j[3], deviations_at_most=j[4]))
    runs = ck.counts.pop("runs", 0)
    cov = dict(evaluations=runs, distinct_nontrivial=runs - ck.counts.get("executions_with_0_deviations", 0), steps_taken=points, **ck.counts,
               steps_not_branched_at=passed, exhaustive=violation is None and not passed,
               rule="one evaluation: one execution of the smd binary with the operating system deviating at chosen steps (open, read, write, stat, realpath, ... on files of the scratch tree); distinct by document, earlier output and deviations; non-trivial: at least one deviation. Deviations: short by all but 1 byte, half, EINTR, EIO, EACCES, EMFILE, ENOSPC, EDQUOT, nothing written; for one document every error number.")
    return ck, ck.finish("fault_enumeration", cov, ["smd reaches the operating system through libc, where it is interposed", "errors that the system reports only when a file is closed are not injected"], violation)
