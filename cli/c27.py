"""C27: verbosity and logging never change the result.

The product of every setting of -v, RUST_LOG, RUST_LOG_STYLE and of what stderr is, with
commands and documents; and the flags for help and version in every place of the command line.
"""
import itertools, os, re, subprocess
from lib import *

FLAGS = [[], ["-v"], ["-vv"], ["-v", "-v", "-v"], ["--verbose"], ["--debug"], ["--verbose", "--debug"], ["-vvvvvvvv"], ["-" + "v" * 255]]
LOGS = [None, b"", b"off", b"error", b"warn", b"info", b"debug", b"trace", b"smd=trace", b"gfm=trace", b"smd_core=trace,gfm=off", b"bogus", b"=,=,", b"gfm::lexer=debug", b"trace/a", b"info/[", b"\xff", b"TRACE", b"9"]
# every shape of a filter over every module
MODULES = ["smd", "gfm", "smd_core", "headless_chrome", "smd::args", "gfm::parser::inline", "a_module_of_another_program", "SMD", "smd ", "木"]
LEVELS = ["off", "error", "warn", "info", "debug", "trace", "Debug", "loud", "", "7"]
FILTERS = [f.encode() for f in dict.fromkeys(
    [m for m in MODULES + LEVELS] + [m + "=" + l for m in MODULES for l in LEVELS] + [l + "," + m for l in LEVELS for m in MODULES] + [l + "," + m + "=" + k for l in LEVELS[:6] for m in MODULES[:4] for k in LEVELS[:6]]
    + [m + "=" + l + "," + n + "=" + k for m in MODULES[:3] for n in MODULES[:3] for l in ("off", "trace") for k in ("off", "trace")] + [l + "/" + x for l in ("debug", "trace", "smd=trace") for x in ("", "a", "parse", ".*", "(", "/")]
    + ["debug" * n for n in (2, 10, 1000)] + [",".join(["gfm=trace"] * n) for n in (2, 10, 1000)] + [" trace", "trace ", "tr ace", "smd = trace", "trace\n", "smd=trace=info", "smd:trace", "smd;gfm"])]
COUNTS = [["-" + "v" * n] for n in (*range(1, 13), 16, 32, 64, 100, 128, 254, 255, 256, 257, 1000)]
STYLES = [None, "always", "never", "auto", "bogus"]
CONFIG = b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n'

COMMANDS = {
    "html": ["parse", "-i", "doc.md", "-o", "html"],
    "html over an earlier one": ["parse", "-i", "doc.md", "-o", "html"],
    "html with configuration": ["parse", "-i", "doc.md", "-o", "html"],
    "not UTF-8": ["parse", "-i", "bad.md", "-o", "html"],
    "no input": ["parse", "-i", "missing.md", "-o", "html"],
    "broken configuration": ["parse", "-i", "doc.md", "-o", "html"],
    "output in the way": ["parse", "-i", "doc.md", "-o", "html"],
    "initialize": ["initialize"],
    "initialize twice": ["initialize"],
    "wrong": ["parse", "-o", "html"],
    "input elsewhere": ["parse", "-i", "../tree/./doc.md", "-o", "html"],
    "linked input": ["parse", "-i", "link.md", "-o", "html"],
    "link to a name that is no text": ["parse", "-i", "strange.md", "-o", "html"],
    "directory whose name is no text": ["parse", "-i", "strange dir/doc.md", "-o", "html"],
    "in a directory whose name is no text": ["parse", "-i", "doc.md", "-o", "html"],
    "name that is no text": ["parse", "-i", b"\xff.md", "-o", "html"],
    "name with every sign": ["parse", "-i", "{} %s \x1b[1m\n\u00e9.md", "-o", "html"],
    "directory as input": ["parse", "-i", ".", "-o", "html"],
    "output is the input": ["parse", "-i", "same.html", "-o", "html"],
    "pdf": ["parse", "-i", "doc.md"],
    "pdf fails": ["parse", "-i", "doc.md", "-o", "pdf"],
}


def prepare(case, command, doc):
    with open(case.tree + "/doc.md", "wb") as f:
        f.write(doc)
    with open(case.tree + "/bad.md", "wb") as f:
        f.write(b"\xff\xfe")
    with open(case.tree + "/same.html", "wb") as f:
        f.write(doc)
    for p in ("/{} %s \x1b[1m\n\u00e9.md",):
        with open(case.tree + p, "wb") as f:
            f.write(doc)
    tree = os.fsencode(case.tree)
    os.mkdir(tree + b"/d\xff")
    for p in (b"/d\xff/doc.md", b"/\xff.md"):
        with open(tree + p, "wb") as f:
            f.write(doc)
    os.symlink("doc.md", case.tree + "/link.md")
    os.symlink(b"\xff.md", tree + b"/strange.md")
    os.symlink(b"d\xff", tree + b"/strange dir")
    if command == "html over an earlier one":
        with open(case.tree + "/doc.html", "wb") as f:
            f.write(b"earlier " * 100)
    if command == "output in the way":
        os.mkdir(case.tree + "/doc.html")
    if command in ("html with configuration", "initialize twice"):
        case.config(CONFIG)
    if command == "broken configuration":
        case.config(b"[parse\n")
    env = {}
    if command.startswith("pdf"):
        env.update(case.chrome(fail=[["Page.printToPDF", 1, "error"]] if command == "pdf fails" else []))
        env.update(case.shim(log=False))
    return env


def state(case):
    """Everything that may be observed except stderr, without names of the scratch directory."""
    r = {}
    for p, v in snapshot(case.tree, case.home).items():
        p = os.path.relpath(os.fsdecode(p), case.dir)
        r[p] = (v[0], v[1], v[4]) if v[0] == "file" else v[:2]
    return r


def execute(area, command, doc, flags=(), logs=None, style=None, stderr="pipe", after=False):
    with Case(area) as case:
        env = dict(case.env)
        env.update(prepare(case, command, doc))
        env = {os.fsencode(k): os.fsencode(v) for k, v in env.items()}
        if logs is not None:
            env[b"RUST_LOG"] = logs
        if style:
            env[b"RUST_LOG_STYLE"] = style.encode()
        kw = {}
        close = None
        if stderr == "full":
            kw["stderr"] = close = os.open("/dev/full", os.O_WRONLY)
        elif stderr == "broken":
            r, w = os.pipe()
            os.close(r)
            kw["stderr"] = close = w
        elif stderr == "closed":
            kw["preexec_fn"] = lambda: os.close(2)
        else:
            kw["stderr"] = subprocess.PIPE
        argv = [area.bin + "/smd", *flags, *COMMANDS[command]]
        cwd = os.fsencode(case.tree) + (b"/d\xff" if command.startswith("in a directory") else b"")
        p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, start_new_session=True, **kw)
        r = finish(p)
        if close is not None:
            os.close(close)
        return (r.code, r.out.replace(os.fsencode(case.dir), b"@"), state(case)), r


def job(arg):
    area, command, doc, settings = arg
    base, r0 = execute(area, command, doc)
    n = 1
    for flags, logs, style, stderr in settings:
        got, r = execute(area, command, doc, flags, logs, style, stderr)
        n += 1
        if got != base:
            names = ("exit status", "stdout", "files")
            d = "; ".join(f"{k}: {b!r} without, {g!r} with" for k, b, g in zip(names, base, got) if b != g)
            raise Violation(f"{command}, document {doc[:200]!r} with flags {flags}, RUST_LOG={logs!r}, RUST_LOG_STYLE={style!r}, stderr {stderr}: {d[:1500]}; {r}")
    return n


HELP = [["-h"], ["--help"], ["-V"], ["--version"]]


def help_job(arg):
    area, line, version = arg
    with Case(area) as case:
        prepare(case, "html", b"# a\n")
        before = snapshot(case.tree, case.home)
        r = case.run(line, env=case.chrome())
        diff = changes(before, snapshot(case.tree, case.home))
        asked = {"-V", "--version"} & set(line)
        ok = r.code == 0 and not diff and b"smd" in r.out
        if asked:
            ok = ok and version in r.out and len(r.out.splitlines()) <= 3
        else:
            ok = ok and (b"--help" in r.out)
        if not ok:
            raise Violation(f"smd {line!r} prints no {'version' if asked else 'help'} or converts something: {r}; {describe(diff)}")
    return 1


def main(tier):
    ck = Check("C27", tier)
    T = ck.thorough
    settings = [(f, l, s, e) for f in FLAGS for l in LOGS for s in STYLES for e in ("pipe",)]
    few = [(f, l, s, e) for f in (FLAGS if T else FLAGS[:4]) for l in (LOGS if T else [None, b"off", b"trace"]) for s in (None, "always") for e in ("pipe", "full", "broken", "closed")]
    doc = "# é\n\n- [x] a ~~b~~\n\n| a |\n|---|\n| `c` |\n\n[l](javascript:x) ![i](j)[^1]\n\n[^1]: n\n".encode()
    jobs = []
    for c in COMMANDS:
        if c.startswith("pdf"):
            mine = [(f, l, None, "pipe") for f in FLAGS[:4] for l in (None, b"off", b"trace", b"bogus")]
        else:
            mine = settings + few
            if c == "html" or T:
                mine += [(f, l, None, "pipe") for f in (FLAGS[:3] if T else FLAGS[:2]) for l in FILTERS]
            mine += [(f, l, None, "pipe") for f in COUNTS for l in (None, b"off")]
        for k in range(0, len(mine), 60):
            jobs.append((ck.area, c, doc, mine[k:k + 60]))
    # documents: what is logged depends on them
    docs = []
    signs = ["", "a", "é", "\n", "`", "*", "[", "<", "|", "-", " ", "\t", "#", ">", "\\", "!", "~", "^"]
    docs += [a + b for a in signs for b in signs] + (["x" + a + b + c for a in signs for b in signs for c in signs] if T else [])
    for n in range(0, 300 if T else 140):
        for tail in ("é", "木b", "`é", "[é](𐍈)"):
            docs.append("a" * n + tail)
    docs += ["木" * n for n in range(0, 130, 1)] + ["a\n" * n for n in (5, 99, 1000)] + ["a\n\né\n\n" * n for n in (5, 99, 300)]
    docs += ["{}", "%s %n", "{0}", "\x1b[31mred", "\0", "﻿", "\u202e", "a\x07"]
    words, numbers = ck.dict("/repo/smd/src", "/repo/smd-core/src", "/repo/gfm/src")
    docs += words + ["a " + w + " é\n" for w in words] + ["é" * (n + x) for n in numbers if n < 10 ** 4 for x in (-1, 0, 1)] + ["a" * (n + x) for n in numbers if n < 10 ** 6 for x in (-1, 0, 1)]
    seen = sorted(set(docs))
    levels = [(["-v"], None, None, "pipe"), (["-vv"], None, None, "pipe"), ([], b"off", None, "pipe")]
    for d in seen:
        jobs.append((ck.area, "html", d.encode(), levels))
    version = re.search(r'name = "smd"\nversion = "([^"]+)"', open("/repo/Cargo.lock").read()).group(1).encode()
    helps = []
    for h in HELP:
        helps += [h, ["-v", *h], [*h, "-v"], ["parse", *h], ["parse", "-i", "doc.md", "-o", "html", *h], ["parse", *h, "-i", "doc.md", "-o", "html"], ["initialize", *h], [*h, "parse", "-i", "doc.md"], [*h, "initialize"], ["-vv", "parse", *h], ["parse", "-i", "doc.md", *h]]
    violation = None
    try:
        for n in ck.map(help_job, [(ck.area, l, version) for l in helps]):
            ck.count(help_and_version=n)
        for n in ck.map(job, jobs, workers=10, chunk=2):
            ck.count(executions=n)
    except Violation as e:
        violation = str(e)
    for j in jobs[:: len(jobs) // 10]:
        ck.sample(dict(command=j[1], document=j[2].decode(errors="replace")[:120], first_setting=[repr(x) for x in j[3][0]]))
    n = ck.counts.get("executions", 0) + ck.counts.get("help_and_version", 0)
    return ck, ck.finish("exploration", dict(evaluations=n, distinct_nontrivial=n - len(jobs), **ck.counts, documents=len(seen) + 1, settings=len(settings), commands=len(COMMANDS), exhaustive=violation is None,
        rule="one evaluation: one execution of the smd binary; its exit status, stdout and files are compared with those of the same command without any setting. All combinations of flags x RUST_LOG x RUST_LOG_STYLE x commands, of fewer of them with stderr full, broken and closed, and all documents of the list at two verbosities and without logging; distinct, and non-trivial unless it is the execution without settings."),
        ["PDFs are made by a stand-in browser"], violation)
