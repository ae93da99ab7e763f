"""C29: files round-trip through the core library.

All short texts and byte strings, sizes around the powers of two, all short histories of
writes (probe/src/files.rs), and all executions with at most two deviations of the operating system.
"""
import os, subprocess
from c26 import read_shard
from lib import *

BENIGN = {"open": ["err:4"], "read": ["short:1", "half", "err:4"], "write": ["short:1", "half", "err:4"]}
HARD = {"open": ["err:5", "err:13", "err:28"], "read": ["err:5"], "write": ["err:5", "err:28", "zero"], "fsync": ["err:5"], "rename": ["err:5"], "truncate": ["err:5"], "unlink": ["err:5"], "stat": ["err:5"], "link": ["err:5"], "realpath": ["err:5"], "chmod": ["err:1"], "mkdir": ["err:5"]}
MENU = {k: BENIGN.get(k, []) + HARD.get(k, []) for k in {**BENIGN, **HARD}}


def shard(arg):
    area, tier, k, n = arg
    with Case(area) as case:
        r = subprocess.run([area.bin + "/probe", "files", tier, str(k), str(n), case.tree], env=dict(case.env, MENTIONED=area.mentioned), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return read_shard(r)


def text_of(arg):
    return ("é\n" * (int(arg[4:]) // 3) if arg.startswith("big:") else arg).encode()


def execute(area, op, arg, earlier, plan):
    with Case(area) as case:
        path = case.tree + "/f"
        data = text_of(arg)
        if op in ("read", "decode"):
            with open(path, "wb") as f:
                f.write(data)
        elif earlier is not None:
            with open(path, "wb") as f:
                f.write(earlier)
        env = dict(case.env, **case.shim(plan), SHIM_PROGRAM="probe")
        r = subprocess.run([area.bin + "/probe", "io", op, path, arg if op in ("write", "bytes") else ""], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        steps = [(n, c) for n, c, *_ in case.steps()]
        names = dict(steps)
        what = f"{op} of {data[:60]!r} ({len(data)} bytes), earlier {earlier!r}, deviations: " + (", ".join(f"{k} ({names.get(k, 'all')}): {v}" for k, v in plan.items()) or "none")
        with open(path, "rb") if os.path.exists(path) else open("/dev/null", "rb") as f:
            now = f.read()
        if r.returncode == 0:
            got = r.stdout if op in ("read", "decode") else now
            if got != data:
                raise Violation(f"{what}: success, but the result is {got[:100]!r} ({len(got)} bytes)")
        elif r.returncode != 1:
            raise Violation(f"{what}: died: {r}")
        elif all(v in ("err:4", "half") or v.startswith("short:") for v in plan.values()):
            raise Violation(f"{what}: fails: {r.stderr!r}")
        return steps


def explore(arg):
    area, op, text, earlier, bound = arg
    runs = 0
    steps_taken = 0

    def go(plan, after, left):
        nonlocal runs, steps_taken
        steps = execute(area, op, text, earlier, plan)
        runs += 1
        steps_taken += len(steps)
        if left:
            for n, call in steps:
                if n > after:
                    for how in MENU.get(call, []):
                        go({**plan, n: how}, n, left - 1)

    go({}, 0, bound)
    for plan in ({"read": "short:1", "write": "short:1"}, {"read": "short:7", "write": "short:3"}, {"read": "half", "write": "half"}):
        steps_taken += len(execute(area, op, text, earlier, plan))
        runs += 1
    return dict(executions_with_deviations=runs, steps=steps_taken)


def main(tier):
    ck = Check("C29", tier, ("probe", "mc"))
    T = ck.thorough
    words, numbers = ck.dict("/repo/smd/src", "/repo/smd-core/src")
    ck.area.mentioned = ",".join([w.encode().hex() for w in words] + [f"#{n}" for n in numbers if n < 2 ** 24])
    violation = None
    texts = ["", "a", "é\n", "a\r\nb\n木", "big:100", "big:9000"]
    jobs = []
    for op in ("write", "bytes", "read", "decode"):
        for t in texts:
            for e in (None, b"", b"long earlier content\n" * 20) if op in ("write", "bytes") else (None,):
                jobs.append((ck.area, op, t, e, 3 if T and not t.startswith("big") else 2))
    try:
        for c in ck.map(explore, jobs):
            ck.count(**c)
        for c in ck.map(shard, [(ck.area, tier, k, 8) for k in range(8)]):
            ck.count(**c)
    except Violation as e:
        violation = str(e)
    for j in jobs[::6]:
        ck.sample(dict(operation=j[1], text=j[2], earlier=repr(j[3])[:60], deviations_at_most=j[4]))
    c = ck.counts
    n = c.get("executions_with_deviations", 0) + c.get("operations", 0) + c.get("histories", 0)
    return ck, ck.finish("fault_enumeration", dict(evaluations=n, distinct_nontrivial=n - len(jobs), **c, exhaustive=violation is None,
        rule="evaluations: executions of an operation with deviations of the operating system (short, EINTR, EIO, EACCES, ENOSPC, nothing written) in at most two steps, operations on every text and byte string of the spaces over every earlier content, and histories of writes to two files; all distinct; non-trivial: all but the executions without deviation"),
        ["smd-core reaches the operating system through libc, where it is interposed"], violation)
