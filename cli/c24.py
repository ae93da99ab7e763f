"""C24: concurrent conversions do not mix.

All interleavings, within a bound on preemptions, of two and three smd processes (and, of up to
seven, those where all of them are stopped at the same step) that
convert different documents in the same directory, at the level of their file operations and
of the steps of their browsers. Both with process ids of their own and with equal ones, as
in containers that share a directory.
"""
import os, subprocess
import gate as sched
from lib import *

DOCS = {"A": "# first é\n".encode(), "B": b"*second*, and longer than the other\n\n- b\n", "C": b"> third\n",
        # of the same length, with the same beginning; the same twice
        "D": b"# one\n\nsame length D\n", "E": b"# one\n\nsame length E\n", "F": b"# same\n", "G": b"# same\n"}


def lockstep(names, stop, order):
    """A chooser: each process in turn goes on to its step `stop`, then they end in this order."""
    def choose(ready, trace):
        for n in names:
            if n in ready and trace.count(n) < stop:
                return ready.index(n)
        return next(ready.index(n) for n in order if n in ready)
    return choose


def schedule(arg):
    area, group, prefix, bound, html = arg
    names, formats, layout, pid, kill, *config = group
    with Case(area) as case:
        if config:
            case.config(config[0])
        gate = case.x + "/g"
        actors, outs, dirs = [], {}, {}
        for n, f in zip(names, formats):
            d = case.tree if layout in ("same", "one") else case.tree + "/" + n
            os.makedirs(d, exist_ok=True)
            src = {"same": f"{n}.md", "sub": "doc.md", "one": "doc.md"}[layout]
            with open(d + "/" + src, "wb") as fh:
                fh.write(DOCS[n])
            outs[n] = d + "/" + src[:-3] + "." + f
            dirs[n] = d
        with open(case.tree + "/tmp.html", "wb") as fh:
            fh.write(b"the user's own")
        before = snapshot(case.tree)

        def start(n, f):
            def go():
                e = dict(case.env)
                e.update(case.shim(log=False, gate=gate, ident=n, pid=pid, now=1700000000 if pid else None))
                os.makedirs(case.x + "/" + n)
                plan = case.x + "/" + n + "/plan.json"
                with open(plan, "w") as fh:
                    json.dump(dict(fail=[], log=case.x + "/" + n + "/log", gate=gate, gate_id=n + ".browser"), fh)
                e["CHROME_PLAN"] = plan
                e["TMPDIR"] = case.x + "/" + n
                with open(case.x + "/" + n + "/err", "wb") as err:
                    # all of them work in the same directory
                    return subprocess.Popen([area.bin + "/smd", "parse", "-i", os.path.relpath(dirs[n], case.tree) + "/" + os.path.basename(outs[n])[:-len(f)] + "md", "-o", f], cwd=case.tree, env=e,
                                            stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
            return go

        actors = [sched.Program(n, start(n, f)) for n, f in zip(names, formats)]
        if kill:
            # the first of them may be killed at any moment
            def strike():
                try:
                    os.killpg(actors[0].proc.pid, 9)
                except ProcessLookupError:
                    pass
                actors[0].proc.wait()
                actors[0].pending = None
                for c in list(os.listdir(case.x)):
                    pass
            actors.append(sched.Script("death", [strike]))
        if isinstance(prefix, tuple):
            prefix = lockstep(names, prefix[0], prefix[1])
        points, trace, diverged, blocked = sched.run(gate, actors, prefix)
        short = lambda s: s.replace(case.tree + "/", "").replace(" -1", "").replace(" -", "")
        what = f"smd processes {dict(zip(names, formats))} in {dict(same='one directory', sub='directories of their own', one='one directory, of one document')[layout]}, {'equal process ids' if pid else 'own process ids'}{f', configuration {config[0]!r}' if config else ''}: " + "; ".join(f"{a}: {short(s)}" for a, s in trace)
        if blocked:
            return points, len(trace), False
        diff = changes(before, snapshot(case.tree))
        for n, f in zip(names, formats):
            if kill and n == names[0]:
                continue
            code = actors[names.index(n)].proc.returncode
            err = open(case.x + "/" + n + "/err", "rb").read()
            want = html[n] if f == "html" else pdf_of(html[n])
            got = diff.get(os.fsencode(outs[n]), (None, None))[1]
            if code != 0:
                raise Violation(f"{what}: {n} exits with {code}: {err[-500:]!r}")
            if got is None or got[4] != want:
                raise Violation(f"{what}: the output of {n} is {show(got)} and not {want[:150]!r}")
        extra = {p: d for p, d in diff.items() if p not in {os.fsencode(o) for o in outs.values()}}
        if kill:
            # what the killed process leaves is its own
            extra = {p: d for p, d in extra.items() if d[0] is not None}
        if extra:
            raise Violation(f"{what}: files were left behind or touched: {describe(extra)}")
        return points, len(trace), not diverged


def main(tier):
    ck = Check("C24", tier)
    T = ck.thorough
    html = {n: ck.render(d) for n, d in DOCS.items()}
    groups = []
    for layout in ("same", "sub"):
        for pid in (None, 4242):
            groups.append(((["A", "B"], ["html", "html"], layout, pid, False), 4 if T else 3))
            groups.append(((["A", "B"], ["pdf", "pdf"], layout, pid, False), 3 if T else (2 if layout == "same" and pid else 1)))
        groups.append(((["A", "B"], ["html", "pdf"], layout, 4242, False), 2 if T else 1))
        groups.append(((["A", "B", "C"], ["html", "html", "html"], layout, 4242, False), 2 if T else 1))
        groups.append(((["A", "B", "C"], ["pdf", "pdf", "pdf"], layout, 4242, False), 1 if T else 0))
        groups.append(((["A", "B"], ["pdf", "pdf"], layout, 4242, True), 2 if T else 1))
        groups.append(((["A", "B"], ["html", "html"], layout, 4242, True), 2))
    for names in (["D", "E"], ["F", "G"]):
        for pid in (None, 4242):
            groups.append(((names, ["pdf", "pdf"], "same", pid, False), 2 if T else 1))
            groups.append(((names, ["html", "html"], "same", pid, False), 3 if T else 2))
        groups.append(((names, ["pdf", "pdf"], "sub", 4242, False), 2 if T else 1))
    groups.append(((["F", "G"], ["html", "pdf"], "one", 4242, False), 2 if T else 1))
    for config in (b'[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n', b'[parse]\non_parse_error = "skip"\nkeep_temp_files = false\n'):
        for formats in (["pdf", "pdf"], ["html", "html"], ["html", "pdf"]):
            groups.append(((["A", "B"], formats, "same", 4242, False, config), 1))
    violation = None
    scheds = steps = cut = 0
    per = {}
    todo = [(ck.area, g, [], b, html) for g, b in groups]
    try:
        while todo:
            nxt = []
            for job, (points, n, ok) in zip(todo, ck.map_ordered(schedule, todo, workers=24)):
                scheds += 1
                steps += n
                cut += not ok
                key = "+".join(job[1][1]) + (" one killed" if job[1][4] else "")
                per[key] = per.get(key, 0) + 1
                if ok:
                    nxt += [(ck.area, job[1], p, job[3], html) for p in sched.children(job[2], points, job[3])]
            todo = nxt
        # many processes, all of them stopped at the same step
        together = [(list(DOCS)[:n], [f] * n, layout, pid, False) for n in ((3, 4, 5, 6, 7) if T else (3, 7)) for f in ("pdf", "html") for layout in ("same", "sub") for pid in (None, 4242) if T or layout == "same"]
        first = [(ck.area, g, (0, g[0]), 0, html) for g in together]
        todo = []
        for g, (_, n, _) in zip(together, ck.map_ordered(schedule, first, workers=24)):
            names = g[0]
            orders = [names, names[::-1]] + ([names[k:] + names[:k] for k in range(1, len(names))] if T else [])
            todo += [(ck.area, g, (s, o), 0, html) for s in range(1, n // len(names) + 1) for o in orders]
        for job, (points, n, ok) in zip(todo, ck.map_ordered(schedule, todo, workers=24)):
            scheds += 1
            steps += n
            cut += not ok
            key = f"{len(job[1][0])} processes in step"
            per[key] = per.get(key, 0) + 1
    except Violation as e:
        violation = str(e)
    for g, b in groups:
        ck.sample(dict(processes=dict(zip(g[0], g[1])), directories=g[2], process_ids="equal" if g[3] else "own", first_is_killed=g[4], configuration=repr(g[5:]), preemptions_at_most=b), 20)
    return ck, ck.finish("model_checking", dict(states=scheds, transitions=steps, traces_validated_against_impl=scheds, schedules_cut_short=cut, schedules_by_formats=per, exhaustive=violation is None and not cut,
        rule="states: schedules executed; transitions: steps (file operations of smd, steps of its browser) granted by the scheduler; traces: schedules of the real binary whose outputs and files were judged"),
        ["a process is interrupted only before its file operations and the steps of its browser, which is where others can see a difference", "PDFs are made by a stand-in browser that returns a function of what it was shown"], violation)
