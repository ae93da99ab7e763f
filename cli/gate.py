"""A scheduler for processes: one of them runs at a time, from gate to gate.

Every smd process stops at each of its file operations (shim.c) and a stand-in browser at
its own gates; a scheduler decides who goes on. `explore` enumerates all schedules within
a bound on preemptions, replaying the program from the start for each.
"""
import os, selectors, signal, socket, subprocess, time

LIMIT = 20.0  # an actor that has not come back by then is taken for blocked


class Actor:
    """A process with its browser, or a list of Python functions taken for another program."""

    def __init__(self, name):
        self.name = name
        self.pending = None  # (connection, what) it waits with
        self.done = False
        self.stuck = False


class Program(Actor):
    def __init__(self, name, popen):
        super().__init__(name)
        self.popen = popen  # started when the schedule begins; callable


class Script(Actor):
    def __init__(self, name, steps):
        super().__init__(name)
        self.steps = list(steps)
        self.pending = (None, "script")


def run(path, actors, prefix, log=None):
    """Runs the actors under the choices of prefix, then the first enabled one.
    Returns the list of choice points: (chosen, number enabled, whether the running actor could go on), and whether the schedule was followed."""
    sel = selectors.DefaultSelector()
    server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    server.bind(path)
    server.listen(16)
    sel.register(server, selectors.EVENT_READ, ("server", None))
    by_name = {a.name: a for a in actors}
    bufs = {}
    procs = {}
    for a in actors:
        if isinstance(a, Program):
            a.proc = a.popen()
            fd = os.pidfd_open(a.proc.pid)
            procs[a.name] = fd
            sel.register(fd, selectors.EVENT_READ, ("exit", a))
    points, trace = [], []
    diverged = blocked = False
    current = None

    def pump(until, limit):
        """Handles what arrives until the condition holds."""
        end = time.monotonic() + limit
        while not until():
            left = end - time.monotonic()
            if left <= 0:
                return False
            for key, _ in sel.select(left):
                kind, x = key.data
                if kind == "server":
                    c, _ = server.accept()
                    bufs[c] = b""
                    sel.register(c, selectors.EVENT_READ, ("gate", None))
                elif kind == "gate":
                    c = key.fileobj
                    try:
                        d = c.recv(65536)
                    except OSError:
                        d = b""
                    if not d:
                        sel.unregister(c)
                        for a in actors:
                            if a.pending and a.pending[0] is c:
                                a.pending = None
                        c.close()
                        continue
                    bufs[c] += d
                    while b"\n" in bufs[c]:
                        line, bufs[c] = bufs[c].split(b"\n", 1)
                        who, what = line.decode(errors="replace").split(" ", 1)
                        by_name[who.split(".")[0]].pending = (c, what)
                else:
                    sel.unregister(key.fd)
                    os.close(key.fd)
                    procs.pop(x.name)
                    x.done = True
                    x.pending = None
        return True

    quiet = lambda a: a.done or a.pending is not None or a.stuck
    try:
        if not pump(lambda: all(quiet(a) for a in actors), LIMIT):
            blocked = True
            for a in actors:
                a.stuck = not quiet(a)
        while True:
            ready = [a for a in actors if not a.done and a.pending is not None]
            if not ready:
                if all(a.done for a in actors):
                    break
                if not pump(lambda: all(a.done for a in actors) or any(a.pending for a in actors), LIMIT * 3):
                    blocked = True
                    break
                continue
            still = current in ready
            if still:
                ready.remove(current)
                ready.insert(0, current)
            if len(ready) > 1:
                k = len(points)
                if callable(prefix):
                    c = prefix([a.name for a in ready], [n for n, _ in trace])
                else:
                    c = prefix[k] if k < len(prefix) else 0
                if c >= len(ready):
                    diverged, c = True, 0
                points.append((c, len(ready), still))
            else:
                c = 0
            a = ready[c]
            current = a
            trace.append((a.name, a.pending[1]))
            if isinstance(a, Script):
                a.steps.pop(0)()
                if not a.steps:
                    a.done, a.pending = True, None
                continue
            conn, _ = a.pending
            a.pending, a.stuck = None, False
            try:
                conn.sendall(b"go\n")
            except OSError:
                pass
            if not pump(lambda: quiet(a), LIMIT):
                a.stuck = True
                blocked = True
    finally:
        for fd in procs.values():
            os.close(fd)
        for a in actors:
            if isinstance(a, Program) and a.proc.poll() is None and not a.done:
                try:
                    os.killpg(a.proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if isinstance(a, Program):
                a.proc.wait()
        for c in list(bufs):
            c.close()
        server.close()
        sel.close()
    return points, trace, diverged, blocked


def children(prefix, points, bound):
    """The schedules that deviate from this one once more, within the bound."""
    cost = 0
    r = []
    for i, (c, n, still) in enumerate(points):
        if i >= len(prefix) and cost + still <= bound:
            for alt in range(1, n):
                r.append([p[0] for p in points[:i]] + [alt])
        cost += still and c != 0
    return r
