"""C25: initialize never replaces a configuration.

Explored: all interleavings (without a bound on preemptions for two processes) of runs of
`smd initialize` with each other and with another program that makes the file, at the level of
their file operations; all failures of one or two of these operations; all kinds of what
may already be in the way.
"""
import itertools, os, subprocess, time
import gate as sched
from lib import *

DEFAULT = b"on_parse_error"


def conf(case):
    return case.home + "/c/smd/config.toml"


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


# ---- interleavings ----------------------------------------------------------

USER = b'[parse]\non_parse_error = "skip"\nkeep_temp_files = true\n'


def other(case, kind, note):
    """Another program, step by step."""
    d, p = case.home + "/c/smd", conf(case)

    def make():
        os.makedirs(d, exist_ok=True)

    def exclusive():
        try:
            fd = os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o644)
            os.write(fd, USER)
            os.close(fd)
            note["won"] = True
        except FileExistsError:
            note["won"] = False

    def rename():
        with open(case.x + "/new.toml", "wb") as f:
            f.write(USER)
        os.rename(case.x + "/new.toml", p)
        note["renamed"] = True

    def link():
        os.symlink(case.x + "/mine.toml", p) if not os.path.lexists(p) else None

    return {"none": [], "exclusive": [make, exclusive], "rename": [make, rename]}[kind]


def schedule(arg):
    area, names, kind, dirs, prefix, bound, fresh = arg
    with Case(area) as case:
        if dirs != "none":
            os.makedirs(case.home + ("/c" if dirs == "config" else "/c/smd"))
        gate = case.x + "/g"
        note = {}

        def start(n):
            def go():
                e = dict(case.env)
                e.update(case.shim(log=False, root=case.dir, gate=gate, ident=n))
                with open(case.x + "/err." + n, "wb") as err:
                    return subprocess.Popen([area.bin + "/smd", "initialize"], cwd=case.tree, env=e, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
            return go

        actors = [sched.Program(n, start(n)) for n in names]
        script = other(case, kind, note)
        if script:
            actors.append(sched.Script("other", script))
        points, trace, diverged, blocked = sched.run(gate, actors, prefix)
        what = f"{len(names)} runs of smd initialize, another program: {kind}, directories before: {dirs}; " + ", ".join(f"{a}: {s}" for a, s in trace)
        codes = {a.name: a.proc.returncode for a in actors if isinstance(a, sched.Program)}
        errs = {n: content(case.x + "/err." + n) for n in names}
        final = content(conf(case))
        wins = sum(c == 0 for c in codes.values())
        if blocked:
            return points, len(trace), False
        for n in names:
            if codes[n] != 0 and not (errs[n] or b"").strip():
                raise Violation(f"{what}: {n} fails without a message")
        if kind == "none":
            if wins != 1 or final != fresh:
                raise Violation(f"{what}: exit statuses {codes}, {errs}; the configuration is {final!r}")
        elif kind == "exclusive":
            if wins + note["won"] != 1:
                raise Violation(f"{what}: exit statuses {codes}, the other program {'made' if note['won'] else 'did not make'} the file; {errs}")
            if final != (USER if note["won"] else fresh):
                raise Violation(f"{what}: the file {'of the other program' if note['won'] else ''} became {final!r}")
        elif kind == "rename":
            if final != USER:
                raise Violation(f"{what}: the file of the other program became {final!r} (exit statuses {codes})")
            if wins > 1:
                raise Violation(f"{what}: both runs report success")
        left = [n for n in os.listdir(case.home + "/c/smd") if n != "config.toml"]
        if left:
            raise Violation(f"{what}: left behind: {left}")
        if diverged:
            return points, len(trace), False
        return points, len(trace), True


# ---- failures ---------------------------------------------------------------

ERRORS = {
    "open": ["err:4", "err:5", "err:13", "err:24", "err:28", "err:30"], "write": ["short:1", "half", "err:4", "err:5", "err:28", "err:122", "zero"],
    "mkdir": ["err:5", "err:13", "err:28"], "stat": ["err:5", "err:13"], "rename": ["err:5", "err:13"], "link": ["err:1", "err:5"], "unlink": ["err:13"],
    "fsync": ["err:5"], "truncate": ["err:5"], "realpath": ["err:5"], "chmod": ["err:1"], "read": ["err:5", "err:4", "short:1"],
}


def failing(arg):
    area, before, plan, fresh = arg
    with Case(area) as case:
        if before != "none":
            os.makedirs(case.home + ("/c" if before == "config" else "/c/smd"))
        if before == "file":
            case.config(USER)
        snap = snapshot(case.home)
        r = case.run(["initialize"], env=case.shim(plan, root=case.home))
        steps = [(n, c) for n, c, *_ in case.steps()]
        names = {n: c for n, c, *_ in case.steps()}
        diff = {p: d for p, d in changes(snap, snapshot(case.home)).items() if not (d[0] is None and d[1][0] == "dir")}
        what = f"smd initialize ({before}), failures: " + ", ".join(f"{n} ({names.get(n)}): {h}" for n, h in plan.items())
        if r.code != 0 and not r.err.strip():
            raise Violation(f"{what}: fails without a message: {r}")
        undo = any(names.get(n) == "unlink" for n in plan)
        p = os.fsencode(conf(case))
        if before == "file":
            if r.code == 0 or diff:
                raise Violation(f"{what}: there is a configuration: {r}; {describe(diff)}")
        elif r.code == 0:
            if set(diff) != {p} or diff[p][1][4] != fresh:
                raise Violation(f"{what}: smd reports success: {describe(diff)}")
        elif diff and not undo:
            raise Violation(f"{what}: smd reports failure and leaves behind: {describe(diff)}")
        benign = all(v in ("err:4", "half") or v.startswith("short:") for v in plan.values())
        if before != "file" and benign and r.code != 0:
            raise Violation(f"{what}: smd fails although everything could be written: {r}")
        return plan, steps


# ---- what is in the way -----------------------------------------------------

WAYS = ["file", "default", "empty file", "invalid file", "directory", "full directory", "link to a file", "dangling link", "link loop", "unreadable file", "read-only directory", "smd is a file", "config is a file", "hard link", "none"]


def way(arg):
    area, kind, xdg, fresh, more, age = arg
    with Case(area) as case:
        base = {"set": case.home + "/c", "unset": case.home + "/.config", "relative": case.home + "/.config"}[xdg]
        if xdg == "unset":
            case.env.pop("XDG_CONFIG_HOME")
        elif xdg == "relative":
            case.env["XDG_CONFIG_HOME"] = "c"
        case.env.update(more)
        d, p = base + "/smd", base + "/smd/config.toml"
        if kind not in ("none", "config is a file", "smd is a file"):
            os.makedirs(d)
        data = {"file": USER, "default": fresh, "empty file": b"", "invalid file": b"[[[", "unreadable file": USER, "hard link": USER}.get(kind)
        if data is not None:
            with open(p, "wb") as f:
                f.write(data)
        if kind == "hard link":
            os.link(p, case.home + "/other.toml")
        if kind == "unreadable file":
            os.chmod(p, 0)
        if kind in ("directory", "full directory"):
            os.mkdir(p)
            if kind == "full directory":
                open(p + "/x", "w").close()
        if kind == "link to a file":
            with open(case.home + "/mine.toml", "wb") as f:
                f.write(USER)
            os.symlink(case.home + "/mine.toml", p)
        if kind == "dangling link":
            os.symlink(case.home + "/mine.toml", p)
        if kind == "link loop":
            os.symlink("config.toml", p)
        if kind == "smd is a file":
            os.mkdir(base)
            open(d, "w").close()
        if kind == "config is a file":
            open(base, "w").close()
        if kind == "read-only directory":
            os.chmod(d, 0o555)
        if age is not None:
            for top, dirs, files in os.walk(case.home):
                for n in dirs + files:
                    os.utime(os.path.join(top, n), (age, age), follow_symlinks=False)
        before = snapshot(case.home, case.tree)
        runs = 0
        for again in (1, 2):
            r = case.run(["initialize"])
            runs += 1
            diff = changes(before, snapshot(case.home, case.tree))
            what = f"smd initialize, in the way: {kind}, XDG_CONFIG_HOME {xdg}, variables {more}, run {again}"
            if kind == "none":
                files = {q: v for q, v in diff.items() if v[1] and v[1][0] != "dir"}
                if (r.code == 0) != (again == 1) or set(files) != {os.fsencode(p)} or files[os.fsencode(p)][1][4] != fresh:
                    raise Violation(f"{what}: {r}; {describe(diff)}")
            elif kind == "dangling link" and r.code == 0:
                if content(p) != fresh:
                    raise Violation(f"{what}: success without a configuration: {describe(diff)}")
                break
            elif r.code == 0 or not r.err.strip() or diff:
                raise Violation(f"{what}: {r}; {describe(diff)}")
        return runs


def main(tier):
    ck = Check("C25", tier, ("smd", "probe", "mc"))
    T = ck.thorough
    # what the environment says is not what is written, and no reason to replace anything
    env = [{"SMD__PARSE__ON_PARSE_ERROR": a} for a in ("abort", "skip", "serialize")] + [{"SMD__PARSE__KEEP_TEMP_FILES": a} for a in ("true", "false")]
    env += [{"SMD__PARSE__ON_PARSE_ERROR": "abort", "SMD__PARSE__KEEP_TEMP_FILES": "true"}, {"SMD__OTHER__KEY": "x"}]
    env += [v for _, c, v in ck.settings() if c is None]
    violation = None
    scheds = steps = cut = 0
    try:
        # an undisturbed run, whose file must load as the defaults
        def first(_):
            with Case(ck.area) as case:
                r = case.run(["initialize"])
                if r.code != 0:
                    raise Violation(f"smd initialize fails where there is no configuration: {r}")
                data = content(conf(case))
                p = subprocess.run([ck.area.bin + "/probe", "load"], env=case.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                q = subprocess.run([ck.area.bin + "/probe", "default"], env=case.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if p.returncode or q.returncode or p.stdout != q.stdout:
                    raise Violation(f"what smd initialize wrote does not load as the default configuration: {data!r}: {p.stdout!r} {p.stderr!r} {q.stdout!r}")
                return data
        globals()["_first"] = first
        fresh = list(ck.map(_first_job, [0]))[0]
        ways = [(ck.area, k, x, fresh, {}, None) for k in WAYS for x in ("set", "unset", "relative")] + [(ck.area, k, "set", fresh, v, None) for k in ("none", "file", "default", "invalid file", "dangling link") for v in env]
        # and what is there has stood there for a minute to fifty years, or comes from the future
        now = int(time.time())
        ways += [(ck.area, k, "set", fresh, {}, a) for k in WAYS for a in (0, 1, now - 10 ** 9, now - 10 ** 7, now - 10 ** 5, now - 100, now + 10 ** 5, now + 10 ** 9)]
        for n in ck.map(way, ways):
            ck.count(obstacles=n)
        # failures: all of one, all of two
        todo = [(ck.area, b, {}, fresh) for b in ("none", "config", "smd", "file")]
        for depth in range(4 if T else 3):
            nxt = []
            for job, (plan, st) in zip(todo, ck.map_ordered(failing, todo, chunk=4)):
                ck.count(**{f"executions_with_{depth}_failures": 1})
                last = max(plan, default=0)
                for n, call in st:
                    if n > last:
                        nxt += [(ck.area, job[1], {**plan, n: h}, fresh) for h in ERRORS.get(call, [])]
            todo = nxt
        # interleavings
        groups = []
        for dirs in ("none", "config", "smd"):
            for kind in ("none", "exclusive", "rename"):
                groups.append((["A", "B"], kind, dirs, 99 if T or kind == "none" else 3))
                if kind != "none":
                    groups.append((["A"], kind, dirs, 99))
            groups.append((["A", "B", "C"], "none", dirs, 2 if T else 1))
        todo = [(ck.area, g[0], g[1], g[2], [], g[3], fresh) for g in groups]
        while todo:
            nxt = []
            for job, (points, n, ok) in zip(todo, ck.map_ordered(schedule, todo, workers=12, chunk=2)):
                scheds += 1
                steps += n
                cut += not ok
                if ok:
                    nxt += [(*job[:4], p, job[5], fresh) for p in sched.children(job[4], points, job[5])]
            todo = nxt
    except Violation as e:
        violation = str(e)
    ck.sample(dict(interleavings="A and B: smd initialize; other: mkdir, create or rename", bound="all interleavings of two runs; at most 3 preemptions with another program; 1 with three runs"))
    ck.sample(dict(failures={k: v for k, v in ERRORS.items()}))
    ck.sample(dict(in_the_way=WAYS, under_settings=[repr(v) for v in env][:60]))
    n = scheds + sum(ck.counts.values())
    return ck, ck.finish("model_checking", dict(states=n, transitions=steps, traces_validated_against_impl=n, schedules=scheds, schedules_cut_short=cut, **ck.counts, exhaustive=violation is None and not cut,
        rule="states: executions (schedules, failures, obstacles); transitions: file operations granted by the scheduler in the schedules; traces: executions of the real binary whose outcome was judged"),
        ["a process is interrupted only before its file operations, which is where others can see a difference"], violation)


def _first_job(_):
    return globals()["_first"](0)
