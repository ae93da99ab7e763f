"""What the checks of the smd program share: building, running, observing, reporting."""
import base64, hashlib, json, multiprocessing, os, re, shutil, signal, stat, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NOBODY = 65534
BUILD = os.path.join(VERIF, "build")


class BrokenCheck(Exception):
    pass


def cargo(args, **kw):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_LOG", "CARGO_BUILD_TARGET_DIR"):
        env.pop(k, None)
    r = subprocess.run(["cargo", *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace"))
        raise BrokenCheck("cargo " + " ".join(args) + " failed")


def build_smd():
    cargo(["build", "--offline", "--manifest-path", "/repo/Cargo.toml", "--bin", "smd", "--target-dir", BUILD + "/smd"])
    return BUILD + "/smd/debug/smd"


def build_mc():
    cargo(["build", "--offline", "--release"], cwd=VERIF + "/mc")
    return VERIF + "/mc/target/release/mc"


def build_probe():
    cargo(["build", "--offline", "--target-dir", BUILD + "/smd"], cwd=VERIF + "/probe")
    return BUILD + "/smd/debug/probe"


def build_shim(to):
    subprocess.run(["gcc", "-O1", "-w", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", to, HERE + "/shim.c", "-ldl", "-lpthread"], check=True)


def pdf_of(html):
    return b"%PDF-1.4\n\x00\xff\r\n" + html + b"\n%%EOF\x80" + hashlib.sha256(html).digest()


# ---- the scratch area -------------------------------------------------------

class Area:
    """A scratch directory with copies of the programs; everything runs as nobody in it."""

    def __init__(self, programs):
        self.path = tempfile.mkdtemp(prefix="smdmc-", dir="/tmp")
        os.chmod(self.path, 0o755)
        self.bin = self.path + "/bin"
        os.mkdir(self.bin)
        for name, src in programs.items():
            shutil.copy(src, self.bin + "/" + name)
            os.chmod(self.bin + "/" + name, 0o755)
        build_shim(self.bin + "/shim.so")
        shutil.copy(HERE + "/chrome.py", self.bin + "/chrome")
        os.chmod(self.bin + "/chrome", 0o755)
        self.work = self.path + "/w"
        os.mkdir(self.work)
        if os.geteuid() == 0:
            os.chown(self.work, NOBODY, NOBODY)

    def remove(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.work], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.path, ignore_errors=True)


def drop():
    os.setsid() if os.getpid() != os.getsid(0) else None
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    signal.signal(signal.SIGINT, signal.SIG_DFL)


class Case:
    """A fresh directory tree for one execution: t/ (observed), h/ (home), x/ (everything else)."""
    n = 0

    def __init__(self, area, deep="t"):
        Case.n += 1
        self.area = area
        self.dir = f"{area.work}/{os.getpid()}-{Case.n}"
        self.tree = self.dir + "/t"
        self.home = self.dir + "/h"
        self.x = self.dir + "/x"
        for d in (self.dir, self.tree, self.home, self.x):
            os.mkdir(d)
        self.env = {
            "PATH": "/usr/bin:/bin", "HOME": self.home, "XDG_CONFIG_HOME": self.home + "/c", "TMPDIR": self.x,
            "LANG": "C.UTF-8", "CHROME": area.bin + "/chrome",
        }

    def __enter__(self):
        return self

    def __exit__(self, *_):
        for base, dirs, _ in os.walk(self.dir):
            for d in dirs:
                p = os.path.join(base, d)
                if not os.path.islink(p) and (os.stat(p).st_mode & 0o700) != 0o700:
                    os.chmod(p, 0o700)
        shutil.rmtree(self.dir)

    def config(self, data):
        os.makedirs(self.home + "/c/smd", exist_ok=True)
        with open(self.home + "/c/smd/config.toml", "wb") as f:
            f.write(data)

    def shim(self, plan=None, log=True, root=None, gate=None, ident=None, pid=None, now=None):
        e = {"LD_PRELOAD": self.area.bin + "/shim.so", "SHIM_ROOT": root or self.tree, "SHIM_HASTE": "20"}
        if log:
            e["SHIM_LOG"] = self.x + "/shim.log"
        if plan:
            e["SHIM_PLAN"] = ",".join(f"{k}={v}" for k, v in sorted(plan.items()))
        if gate:
            e["SHIM_GATE"] = gate
            e["SHIM_ID"] = ident
        if pid:
            e["SHIM_PID"] = str(pid)
        if now:
            e["SHIM_TIME"] = str(now)
        return e

    def steps(self):
        """The steps that the shim saw: (number, call, path, fd, size, flags)."""
        try:
            text = open(self.x + "/shim.log").read()
        except FileNotFoundError:
            return []
        r = []
        for l in text.splitlines():
            n, what, path, fd, size, flags = l.split(" ")
            r.append((int(n), what, path, int(fd), int(size), flags))
        return r

    def chrome(self, fail=(), log=True, **kw):
        p = self.x + "/plan.json"
        with open(p, "w") as f:
            json.dump(dict(fail=list(fail), log=self.x + "/chrome.log" if log else None, **kw), f)
        return {"CHROME_PLAN": p}

    def chrome_log(self):
        try:
            return [json.loads(l) for l in open(self.x + "/chrome.log")]
        except FileNotFoundError:
            return []

    def start(self, args, cwd=None, env=None, stdin=subprocess.DEVNULL):
        e = dict(self.env)
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        return subprocess.Popen([self.area.bin + "/smd", *args], cwd=cwd or self.tree, env=e, stdin=stdin,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)

    def run(self, args, cwd=None, env=None, timeout=100):
        p = self.start(args, cwd, env)
        return finish(p, timeout)


def contents(path):
    """The bytes of a file, None where there is none to be read."""
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def show_bytes(b):
    return "nothing, it does not exist or cannot be read" if b is None else repr(b[:200])


class Result:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    def __repr__(self):
        return f"exit {self.code}, stdout {self.out[-300:]!r}, stderr {self.err[-600:]!r}"


def finish(p, timeout=100):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Result("does not end", out, err)
    return Result(p.returncode, out, err)


def snapshot(*roots):
    """Everything below the roots: kind, mode, contents, and for files identity and time of change."""
    r = {}

    def visit(p):
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            r[p] = ("link", os.readlink(p), st.st_ino)
        elif stat.S_ISDIR(st.st_mode):
            r[p] = ("dir", st.st_mode, st.st_ino)
            try:
                names = sorted(os.listdir(p))
            except PermissionError:
                names = []
            for n in names:
                visit(p + ("/" if isinstance(p, str) else b"/") + n)
        elif stat.S_ISREG(st.st_mode):
            try:
                with open(p, "rb") as f:
                    data = f.read()
            except PermissionError:
                data = None
            r[p] = ("file", st.st_mode, st.st_ino, st.st_mtime_ns, data)
        else:
            r[p] = ("other", st.st_mode, st.st_ino)

    for root in roots:
        visit(os.fsencode(root))
    return r


def changes(before, after):
    """What differs: path -> (before, after), None where there was or is nothing."""
    return {p: (before.get(p), after.get(p)) for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)}


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "file":
        d = v[4]
        return "a file %r%s" % (d[:80] if d is not None else d, "" if d is None or len(d) <= 80 else f" ... ({len(d)} bytes)")
    return repr(v)


def describe(diff):
    return "; ".join(f"{os.fsdecode(p)}: {show(a)} became {show(b)}" for p, (a, b) in diff.items())


# ---- the frame of a check ---------------------------------------------------

class Violation(Exception):
    pass


def _call(job):
    fn, arg = job
    try:
        return ("ok", fn(arg))
    except Violation as e:
        return ("violation", str(e))
    except Exception:
        return ("error", traceback.format_exc())


def sized(n, shapes=None):
    """Documents of exactly so many bytes in which every byte matters, also the spaces at the ends."""
    r = []
    for start, fill, end in SHAPES[:shapes]:
        start, fill, end = start.encode(), fill.encode(), end.encode()
        room = n - len(start) - len(end)
        if room < 0:
            continue
        body = fill * (room // len(fill))
        r.append(start + body + b"y" * (room - len(body)) + end)
    return r


SHAPES = [("    a\n\n```\n", "é", "\n\n \n\t\n"), ("\ufeff# a\n\n```\n", "x\ty\r\n", "\r\n\r\n"), ("\t\ta\n\n~~~\n", "\0木", "\n~~~\n\nz\0"), (" <b>\n", "&<>\"\u00a0", " é"), ("> a\n\n```\n", "𐍈\n", "\n```\n[l](javascript:x)\n"), ("```\n\n\n", "aa\n", "\ufeff")]


class Check:
    def __init__(self, ident, tier, programs=("smd", "mc")):
        self.id, self.tier = ident, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        builders = {"smd": build_smd, "mc": build_mc, "probe": build_probe}
        self.area = Area({p: builders[p]() for p in programs})
        self.counts = {}
        self.samples = []
        self.cache = {}

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def render(self, doc):
        if doc not in self.cache:
            r = subprocess.run([self.area.bin + "/mc", "render"], input=doc, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise BrokenCheck(f"the renderer fails on {doc[:200]!r}: {r.stderr!r}")
            self.cache[doc] = r.stdout
        return self.cache[doc]

    def dict(self, *dirs):
        """Words, characters and numbers in these sources. They choose inputs and decide nothing."""
        r = subprocess.run([self.area.bin + "/mc", "dict", *dirs], stdout=subprocess.PIPE)
        words, numbers = [], []
        for l in r.stdout.decode().splitlines():
            kind, v = l.split(" ")
            if kind == "number":
                numbers.append(int(v))
            else:
                words.append(bytes.fromhex(v).decode())
        return words, numbers

    def settings(self):
        """Configurations and environments that have no say in what is converted to what: (name, configuration, variables)."""
        r = []
        for a in ("abort", "skip", "serialize"):
            for k in ("true", "false"):
                r.append((f"{a}, {k}", f'[parse]\non_parse_error = "{a}"\nkeep_temp_files = {k}\n'.encode(), {}))
        for n, v in (("ON_PARSE_ERROR", "abort"), ("ON_PARSE_ERROR", "skip"), ("KEEP_TEMP_FILES", "true")):
            r.append((f"{n}={v}", r[5][1], {"SMD__PARSE__" + n: v}))
        env = [("TMPDIR", None), ("TMPDIR", "/nonexistent"), ("LANG", None), ("LANG", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("PATH", "/nonexistent"), ("USER", "x"), ("TZ", "Asia/Tokyo"), ("CI", "true"), ("DEBUG", "1"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("RUST_BACKTRACE", "1"),
               ("COLUMNS", "10"), ("PWD", "/nonexistent"), ("SOURCE_DATE_EPOCH", "0"), ("EDITOR", "vi"), ("XDG_CACHE_HOME", "/nonexistent"), ("SMD_CONFIG", "/nonexistent"), ("SMD_OUTPUT", "x"),
               *(("RUST_LOG", v) for v in ("error", "info", "debug", "trace", "smd=trace", "smd=debug,gfm=trace")), ("RUST_LOG_STYLE", "always")]
        # variables that the code mentions
        known = {"CHROME", "RUST_LOG", "RUST_LOG_STYLE", "HOME", "XDG_CONFIG_HOME", "LD_PRELOAD"}
        for w in self.dict("/repo/smd/src", "/repo/smd-core/src", "/repo/gfm/src")[0]:
            if re.fullmatch("[A-Z][A-Z0-9_]+", w) and "__" not in w and w not in known:
                env += [(w, v) for v in ("", "0", "1", "true", "/nonexistent")]
        r += [(f"{k}={v}", None, {k: v}) for k, v in dict.fromkeys(env)]
        return r

    def sizes(self, least=1000, most=2 ** 21, *dirs):
        """Sizes at which a program may change its mind: powers of two and ten and the numbers of the code, and one more."""
        l = [2 ** k for k in range(8, 25)] + [10 ** k for k in range(2, 8)] + [5 * 10 ** k for k in range(2, 7)]
        l += self.dict(*(dirs or ("/repo/smd/src", "/repo/smd-core/src", "/repo/gfm/src")))[1]
        return sorted({n + x for n in l for x in (0, 1) if least <= n <= most})

    def map(self, fn, jobs, workers=8, chunk=1):
        """Runs fn on every job in processes without privileges; yields the results."""
        jobs = [(fn, j) for j in jobs]
        if not jobs:
            return
        with multiprocessing.get_context("fork").Pool(workers, initializer=drop) as pool:
            for kind, value in pool.imap_unordered(_call, jobs, chunksize=chunk):
                if kind == "violation":
                    pool.terminate()
                    raise Violation(value)
                if kind == "error":
                    pool.terminate()
                    raise BrokenCheck(value)
                yield value

    def map_ordered(self, fn, jobs, workers=8, chunk=1):
        """Like map, in the order of the jobs."""
        jobs = [(fn, j) for j in jobs]
        if not jobs:
            return
        with multiprocessing.get_context("fork").Pool(workers, initializer=drop) as pool:
            for kind, value in pool.imap(_call, jobs, chunksize=chunk):
                if kind == "violation":
                    pool.terminate()
                    raise Violation(value)
                if kind == "error":
                    pool.terminate()
                    raise BrokenCheck(value)
                yield value

    def finish(self, level, coverage, assumptions, violation=None):
        d = VERIF + "/evidence"
        os.makedirs(d, exist_ok=True)
        cov = dict(coverage)
        cov["samples"] = self.samples or ["none"]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        with open(f"{d}/{self.id}.json", "w") as f:
            json.dump(dict(property=self.id, tier=self.tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                           wall_s=round(time.time() - self.t0, 2), violations=int(violation is not None)), f, indent=1)
        for k, v in coverage.items():
            if isinstance(v, (int, bool)):
                print(f"{self.id}: {k} = {v}")
        if violation is not None:
            path = f"{d}/{self.id}.replay.txt"
            violation = violation.encode("utf-8", "backslashreplace").decode()
            with open(path, "w", encoding="utf-8") as f:
                f.write(violation + "\n")
            print(violation[:3000])
            print(f"VIOLATION property={self.id} replay={path}")
            return 1
        return 0
