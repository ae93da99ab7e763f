"""C28: the npm wrapper runs the right binary with exactly the given arguments.

The sources of the wrapper are run by node with every platform it may find itself on, all
argument sequences and option objects up to a size, and as a command with every exit status.
"""
import itertools, json, os, re, shutil, subprocess
from c26 import read_shard
from lib import *

SRC = "/repo/npm/smd"
NPM = os.path.join(HERE, "npm")
# the names that node gives to the platforms, by the packages that are published for them
PLATFORMS = {"darwin": ("darwin", ""), "linux": ("linux", ""), "win32": ("windows", ".exe"), "cygwin": ("windows", ".exe")}
ARCHS = ["arm64", "x64"]
OTHERS = [("linux", "ia32"), ("linux", "arm"), ("linux", "ppc64"), ("linux", "riscv64"), ("freebsd", "x64"), ("sunos", "x64"), ("android", "arm64"), ("win32", "ia32"), ("aix", "ppc64"), ("openbsd", "x64")]

BINARY = r'''#!/bin/bash
# records how it was called
{ for a in "$@"; do printf '%s\0' "$a"; done; } > "$RECORD"
pwd -P > "$RECORD.cwd"; env -0 > "$RECORD.env"; cat > "$RECORD.in"
echo "out of smd"; echo "err of smd" >&2
[ -z "$TAKES" ] || sleep "$TAKES"
case "$STATUS" in
s*) kill -"${STATUS#s}" $$; sleep 5;;
*) exit "$STATUS";;
esac
'''


def layout(root, execa, packages, built, sources):
    """node_modules with the wrapper, execa and platform packages; returns the wrapper's directory."""
    nm = root + "/node_modules"
    pkg = nm + "/smd"
    shutil.copytree(built, pkg + "/lib")
    shutil.copytree(sources + "/src", pkg + "/src")
    shutil.copy(sources + "/package.json", pkg + "/package.json")
    os.makedirs(nm + "/execa")
    name = os.path.basename(execa)
    shutil.copy(execa, nm + "/execa/" + name)
    with open(nm + "/execa/package.json", "w") as f:
        json.dump({"name": "execa", "version": "8.0.1", "main": name, "exports": {".": "./" + name}}, f)
    for p in packages:
        os.makedirs(nm + "/" + p + "/bin")
        with open(nm + "/" + p + "/package.json", "w") as f:
            json.dump({"name": p, "version": "0"}, f)
        exe = nm + "/" + p + "/bin/smd" + (".exe" if "windows" in p else "")
        with open(exe, "w") as f:
            f.write(BINARY)
        os.chmod(exe, 0o755)
    return pkg


def node(args, env, **kw):
    if "input" not in kw:
        kw["stdin"] = subprocess.DEVNULL
    return subprocess.run(["node", *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800, **kw)


def record(arg):
    area, tier, platform, arch, which, packages, built, sources, *place = arg
    with Case(area) as case:
        root = case.tree
        if place:
            root += "/" + place[0]
            os.makedirs(root)
        os_name, ext = PLATFORMS.get(platform, (platform, ""))
        mine = f"smd-{os_name}-{arch}"
        there = packages if which == "all" else [p for p in packages if p == mine]
        pkg = layout(root, NPM_COPY(area, "execa-record.mjs"), there, built, sources)
        expected = root + f"/node_modules/{mine}/bin/smd{ext}" if mine in packages else "none"
        if mine in packages and mine not in there:
            raise BrokenCheck(mine)
        env = dict(case.env, FAKE_PLATFORM=platform, FAKE_ARCH=arch, MENTIONED=json.dumps(mentioned(sources)))
        r = node(["--import", area.bin + "/platform.mjs", area.bin + "/drive.mjs", pkg, "place" if place else tier if which == "all" else "quick", expected], env, cwd=case.tree)
        c = read_shard(r)
        return dict(recorded_calls=c["calls"], platforms=1)


def NPM_COPY(area, name):
    return area.bin + "/" + name


def mentioned(sources):
    """The strings in the sources. They choose arguments and decide nothing."""
    words = []
    for base, _, names in sorted(os.walk(sources + "/src")):
        for n in sorted(names):
            with open(base + "/" + n, errors="replace") as f:
                text = re.sub(r"/\*.*?\*/", "", f.read(), flags=re.S)
            for a, b, c in re.findall(r'"([^"\n]*)"|\'([^\'\n]*)\'|`([^`]*)`', text):
                w = a or b or c
                words += [w] + re.split(r"\$\{[^}]*\}", w)
            words += re.findall(r"/((?:[^/\n\\]|\\.)+)/[gimsuy]*[,.)]", text)
    return [w for w in dict.fromkeys(words) if w and len(w) < 60][:150]


# where the packages may be installed
INSTALLED = ["a b", "%41", "a%20b", "#x", "?q", "é木", "a&b", "a;b", "a+b", "[a]", "'\"", "$HOME", "~", "a\nb", "node_modules/x", "x" * 120, "-a", "smd", "C:", "bin", "lib", "@scope", ".hidden", "a.b", "(1)", "{a}", "a,b", "a=b", "!x", "%", "%zz", "\u00a0", "windows", "linux"]

STATUSES = [str(i) for i in range(256)] + ["s1", "s2", "s6", "s9", "s11", "s13", "s15"]


def command(arg):
    area, status, args, packages, built, sources, *place = arg
    takes = ""
    if place and isinstance(place[0], int):
        takes, place = str(place[0]), []
    with Case(area) as case:
        root = case.tree
        if place:
            root += "/" + place[0]
            os.makedirs(root)
        native = {"x86_64": "x64", "aarch64": "arm64"}[os.uname().machine]
        mine = "smd-linux-" + native
        there = packages if status != "missing package" else []
        pkg = layout(root, NPM_COPY(area, "execa-real.cjs"), there, built, sources)
        exe = root + f"/node_modules/{mine}/bin/smd"
        if status == "missing binary":
            os.unlink(exe)
        if status == "not executable":
            os.chmod(exe, 0o644)
        env = dict(case.env, RECORD=case.x + "/record", STATUS=status, TAKES=takes, MARK="a b\n= é", RUST_LOG="debug", SMD__PARSE__KEEP_TEMP_FILES="true", EMPTY="")
        os.mkdir(case.tree + "/where it runs")
        given = "what is typed é\n".encode() * (1 + len(args))
        r = node([pkg + "/lib/cli.js", *args], env, cwd=case.tree + "/where it runs", input=given)
        what = f"npm command with {args!r}, smd exits with {status}"
        got = None
        if os.path.exists(case.x + "/record"):
            with open(case.x + "/record", "rb") as f:
                got = [os.fsdecode(a) for a in f.read().split(b"\0")[:-1]]
        if not status.isdigit() and not status.startswith("s"):
            if r.returncode == 0 or got is not None:
                raise Violation(f"{what}: exits with {r.returncode}, {r.stderr[-400:]!r}")
            return 1
        if got is None or got != list(args):
            raise Violation(f"{what}: smd was called with {got!r}; {r.stderr[-500:]!r}")
        def recorded(kind):
            with open(case.x + "/record." + kind, "rb") as f:
                return f.read()
        if os.fsdecode(recorded("cwd")).rstrip("\n") != os.path.realpath(case.tree + "/where it runs"):
            raise Violation(f"{what}: smd runs in {recorded('cwd')!r}")
        if recorded("in") != given:
            raise Violation(f"{what}: smd reads {recorded('in')[:100]!r} from its standard input, given was {given[:100]!r}")
        seen = dict(e.split(b"=", 1) for e in recorded("env").split(b"\0") if b"=" in e)
        lost = {k: v for k, v in env.items() if seen.get(os.fsencode(k)) != os.fsencode(v)}
        if lost:
            raise Violation(f"{what}: variables that smd does not see or sees with another value: {lost}")
        if b"out of smd" not in r.stdout or b"err of smd" not in r.stderr:
            raise Violation(f"{what}: what smd prints is lost: {r.stdout[-300:]!r}, {r.stderr[-300:]!r}")
        if status.isdigit() and r.returncode != int(status):
            raise Violation(f"{what}: exits with {r.returncode}; {r.stderr[-500:]!r}")
        if not status.isdigit() and r.returncode == 0:
            raise Violation(f"{what} (a signal): exits with 0")
        return 1


def main(tier):
    ck = Check("C28", tier, ())
    T = ck.thorough
    for n in os.listdir(NPM):
        shutil.copy(NPM + "/" + n, ck.area.bin + "/" + n)
        os.chmod(ck.area.bin + "/" + n, 0o644)
    built = ck.area.path + "/built"
    sources = ck.area.path + "/sources"
    shutil.copytree(SRC + "/src", sources + "/src")
    shutil.copy(SRC + "/package.json", sources + "/package.json")
    subprocess.run(["chmod", "-R", "a+rX", ck.area.path])
    r = subprocess.run(["node", NPM + "/build.mjs", sources + "/src", built], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BrokenCheck("the wrapper does not build: " + r.stdout.decode(errors="replace"))
    subprocess.run(["chmod", "-R", "a+rX", ck.area.path])
    packages = sorted(json.load(open(SRC + "/package.json")).get("optionalDependencies", {}))
    violation = None
    try:
        known = {f"smd-{PLATFORMS[p][0]}-{a}" for p in PLATFORMS for a in ARCHS}
        if set(packages) != known:
            raise Violation(f"the optional dependencies are {packages}, published are {sorted(known)}")
        jobs = [(ck.area, tier, p, a, w, packages, built, sources) for p in PLATFORMS for a in ARCHS for w in ("all", "one")]
        jobs += [(ck.area, tier, p, a, "all", packages, built, sources) for p, a in OTHERS]
        jobs += [(ck.area, tier, p, a, "all", packages, built, sources, d) for d in INSTALLED for p, a in (("linux", "x64"), ("darwin", "arm64"), ("win32", "x64"))]
        for c in ck.map(record, jobs):
            ck.count(**c)
        words = ["", "a b", "--", "-i", "é", "*", "$HOME", '"', "\\", "\n", "--output=html"]
        runs = [(s, ["parse", "-i", "a b.md"]) for s in STATUSES + ["missing binary", "missing package", "not executable"]]
        runs += [("3", list(t)) for n in range(0, 4 if T else 3) for t in itertools.product(words, repeat=n)]
        # every number of arguments with the statuses that matter
        runs += [(s, ["-a", "b c"][i % 2:] * (n // 2) + ["x"] * (n % 2)) for i, s in enumerate(["0", "1", "2", "101", "255", "s9", "s15"]) for n in (*range(0, 13), 31, 100)]
        cmds = [(ck.area, s, a, packages, built, sources, n) for n in ((2, 12, 65) if T else (2, 12)) for s, a in (("0", []), ("3", ["parse", "-i", "a.md"]), ("s15", ["x"]))]
        cmds += [(ck.area, s, a, packages, built, sources) for s, a in runs]
        said = mentioned(sources)
        cmds += [(ck.area, "3", a, packages, built, sources) for w in said for a in ([w], ["parse", "-i", w], ["--" + w])]
        odd = [x + w + y for w in ("a", "a b", "HOME") for x, y in itertools.chain([("'", "'"), ('"', '"'), ("`", "`"), ("$(", ")"), ("${", "}"), ("%", "%"), ("(", ")"), (" ", " ")], [(x, "") for x in ("$", "^", "!", "#", "@", "&", "|", ";", "~/", "~", "./", "../", "--", "-", "+", "=", "--x=", "\\", "\ufeff")], [("", y) for y in (";", " ", "\n", "\\", "=", "/")])]
        cmds += [(ck.area, "3", a, packages, built, sources) for w in odd for a in ([w], ["parse", "-i", w])]
        cmds += [(ck.area, "3", ["a b", "é"], packages, built, sources, d) for d in INSTALLED]
        for n in ck.map(command, cmds, chunk=4):
            ck.count(commands=n)
    except Violation as e:
        violation = str(e)
    for j in jobs[::5] if "jobs" in dir() else []:
        ck.sample(dict(platform=j[2], arch=j[3], installed=j[4]))
    for s, a in (runs if "runs" in dir() else [])[::60]:
        ck.sample(dict(status=s, arguments=a))
    c = ck.counts
    n = c.get("recorded_calls", 0) + c.get("commands", 0)
    return ck, ck.finish("exploration", dict(evaluations=n, distinct_nontrivial=n, **c, exhaustive=violation is None,
        rule="one evaluation: one call of the wrapper (by node, from its sources), with what it runs and how recorded and compared with the specification of the option and platform mapping; or one run of its command with a stand-in binary that records its arguments and exits with every status and signal. All argument sequences of up to 3 of 21 words, all option objects with one key (all declared ones), two keys and three keys over 20 values, on every platform; all distinct and non-trivial."),
        ["types are stripped by esbuild, the bundler (tsup) is not run", "execa is the installed 5.1.1, or a recorder"], violation)
