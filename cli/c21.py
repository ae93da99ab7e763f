"""C21: a conversion touches no file but its output.

The whole product of input names, places, spellings of the path, working directories,
formats and neighbouring files; the tree is compared before and after.
"""
import itertools, os
from lib import *
from c20 import LIKE, like

NAMES = ["doc.md", "doc", "doc.markdown", "doc.tar.md", ".md", "doc.", "a b.md", "é木.md", "doc.MD", "%41%2e.md", "#1?x.md",
         "doc.html", "doc.pdf", "doc.htm", "doc.html.md", "doc.pdf.md", "-o.md", "a\nb.md", "~.md", "tmp.html", "doc.html~", "..md", "a..md", ".a.md",
         "doc.é", "x" * 200 + ".md", "'\"$(a);.md", "*.md", "[a].md", "doc .md", "doc. md", "\\doc.md", "a\\b.md", "$HOME.md", "${HOME}.md", "$a.md", "a$PATH", "%HOME%.md", "{a,b}.md", "a%s{}.md", "~a.md", "a~1.md", "$.md", "!!.md", "a&b.md", "a|b.md", "a>b.md", "\ta.md", " a.md", "a.md ", "a.md\n", "A.Md", "con.md", "a\u0301.md", "\u202ea.md"]
STEMS = ["doc", "a.b", "a.b.c", ".a", ".a.b", "README", "v1.2", "x.html", "x.pdf", "x.md", "a.", "é", "..."]
EXTS = ["md", "markdown", "Markdown", "mdown", "mkd", "mkdn", "mdx", "Rmd", "txt", "text", "MD", "Md", "html", "HTML", "Html", "htm", "xhtml", "html5", "pdf", "PDF", "pdfx", "gz", "1", "0", "a b", "é", "tmp", "bak", "rs", "md~", "part"]
PLACES = ["", "in", "in/sub dir", "é/#%20?", "in.d/a.md.d"]
SPELL = ["relative", "absolute", "dotted", "linked-dir", "linked-file", "tilde"]
CWDS = ["root", "place", "elsewhere"]


def output_name(name, ext):
    """The name with its extension replaced, as the standard library of Rust defines extensions."""
    at = name.rfind(".")
    if at > 0:
        name = name[:at]
    return name + "." + ext


def neighbours(base, name):
    stem = name[: name.rfind(".")] if name.rfind(".") > 0 else name
    r = ["other.md", "other.html", "other.pdf", stem + ".txt", stem + ".html.bak", stem + "~", "doc.html.tmp", "doc.pdf.tmp", "tmp.html", "tmp.pdf",
         "output.html", "index.html", name + ".html", name + ".pdf", stem + ".html", stem + ".pdf", stem + ".md", stem, "." + stem + ".html", "tmp-0.html", "tmp-1.html"]
    return r


def body(n):
    return f"neighbour {n}\n".encode()


def job(arg):
    area, name, place, spell, cwd, fmt, others, doc, html, *more = arg
    config, setting = more or (None, {})
    with Case(area) as case:
        if config:
            case.config(config)
        root = case.tree
        home = place and root + "/" + place or root
        os.makedirs(home, exist_ok=True)
        where = root + "/else where"
        os.mkdir(where)
        path = home + "/" + name
        cwd_path = {"root": root, "place": home, "elsewhere": where}[cwd]
        # Only the output itself is absent (or old), every other name is taken
        ext = "html" if fmt == "html" else "pdf"
        out = home + "/" + output_name(name, ext)
        if others != "none":
            for d in {home, where, root}:
                for n in neighbours(d, name):
                    p = d + "/" + n
                    if len(n.encode()) > 255 or (os.path.exists(p) or p == out):
                        continue
                    with open(p, "wb") as f:
                        f.write(b"" if others == "empty files" else doc if others == "equal files" else html if others == "equal outputs" else body(n))
                    if others == "read-only files" and p != path:
                        os.chmod(p, 0o444)
        if not os.path.isdir(path):
            with open(path, "wb") as f:
                f.write(doc)
        same = out == path
        if others == "earlier" and not same:
            with open(out, "wb") as f:
                f.write(b"<p>earlier, and longer than what replaces it</p>\n" * 40)
        if others in LIKE and not same:
            with open(out, "wb") as f:
                f.write(like(html if ext == "html" else pdf_of(html), others))
        if others == "directory" and not same:
            os.mkdir(out)
            for n in ("index.html", "index.htm", "index.pdf", "README.html", name, os.path.basename(out)):
                with open(out + "/" + n, "wb") as f:
                    f.write(body(n))
        if others == "empty directory" and not same:
            os.mkdir(out)
        if others in ("link", "hard", "link-to-input") and not same:
            if others == "link":
                with open(root + "/linked target", "wb") as f:
                    f.write(b"earlier")
                os.symlink(root + "/linked target", out)
            elif others == "hard":
                os.link(path, out)
            else:
                os.symlink(path, out)
        if spell == "relative":
            given = os.path.relpath(path, cwd_path)
            if given.startswith("-"):
                given = "./" + given
        elif spell == "absolute":
            given = path
        elif spell == "dotted":
            given = os.path.relpath(where, cwd_path) + "/../" + (place and place + "/../" * (place.count("/") + 1) or "") + "./" + (place and place + "//" or "") + name
        elif spell == "linked-dir":
            os.symlink(home, root + "/ldir")
            given = root + "/ldir/" + name
        elif spell == "linked-file":
            os.symlink(path, root + "/lfile.md")
            given = root + "/lfile.md"
        else:
            case.env["HOME"] = home
            given = "~/" + name
        before = snapshot(case.tree, case.home)
        args = ["parse", "-i", given] + (["-o", fmt] if fmt != "default" else [])
        env = {**setting, **case.chrome(), **case.shim(log=False)} if ext == "pdf" else setting
        r = case.run(args, cwd=cwd_path, env=env)
        after = snapshot(case.tree, case.home)
        diff = changes(before, after)
        what = f"smd parse -i {given!r} {fmt} in {cwd_path!r} (other files: {others}{f', configuration {config!r}' if config else ''}{f', environment {setting!r}' if setting else ''})"
        refuse = same or others in ("hard", "link-to-input")
        if refuse:
            if r.code == 0:
                raise Violation(f"{what}: the output is the input itself and smd does not refuse: {describe(diff)}")
            if diff:
                raise Violation(f"{what}: smd refuses but changes files: {describe(diff)}")
            return "refused"
        if "directory" in others:
            if r.code == 0 or diff:
                raise Violation(f"{what}: the output is a directory: {r}, changes: {describe(diff)}")
            return "failed"
        want = html if ext == "html" else pdf_of(html)
        if r.code != 0:
            raise Violation(f"{what}: smd fails: {r}")
        allowed = {os.fsencode(out)}
        if others == "link":
            allowed.add(os.fsencode(root + "/linked target"))
        bad = {p: d for p, d in diff.items() if p not in allowed}
        if bad:
            raise Violation(f"{what}: files other than the output {out!r} were touched: {describe(bad)}")
        if os.path.islink(out) and others != "link":
            raise Violation(f"{what}: the output is a link")
        got = contents(out)
        if got != want:
            raise Violation(f"{what}: {out!r} holds {show_bytes(got)} and not {want[:200]!r}")
        return "converted"


def main(tier):
    ck = Check("C21", tier)
    T = ck.thorough
    doc = "# é\n\n*a* `b`\n".encode()
    html = ck.render(doc)
    jobs, pdfs = [], []
    for name, place, spell, cwd in itertools.product(NAMES, PLACES, SPELL, CWDS):
        if spell == "tilde" and cwd != "elsewhere":
            continue
        if cwd == "place" and not place:
            continue
        jobs.append((ck.area, name, place, spell, cwd, "html", "taken", doc, html))
        if T or (spell, cwd) in (("relative", "elsewhere"), ("relative", "place"), ("absolute", "root")) and (place == "in" or name in NAMES[:4]) or name in ("doc.md", "doc.pdf"):
            pdfs.append((ck.area, name, place, spell, cwd, "pdf", "taken", doc, html))
    for name, place, others in itertools.product(NAMES, PLACES, ["none", "earlier", "link", "hard", "link-to-input", "directory", "empty directory"]):
        for cwd in ("place", "elsewhere"):
            jobs.append((ck.area, name, place, "relative", cwd, "html", others, doc, html))
        if place == "in":
            pdfs.append((ck.area, name, place, "relative", "place", "default", others, doc, html))
    for n in dict.fromkeys([s + "." + x for s in STEMS for x in EXTS] + [s + x for s in STEMS for x in ("", ".")]):
        if n in ("..", ".") or n in NAMES:
            continue
        for others in ("taken", "none", "earlier"):
            jobs.append((ck.area, n, "in", "relative", "elsewhere", "html", others, doc, html))
        if T or n.startswith(("doc.", "a.b.")):
            pdfs.append((ck.area, n, "in", "relative", "elsewhere", "pdf", "taken", doc, html))
    # names that the code mentions
    words, _ = ck.dict("/repo/smd/src", "/repo/smd-core/src")
    words = [w for w in dict.fromkeys(w.strip("/").replace("/", "_").replace("\0", "") for w in words) if w and len(w.encode()) < 60 and w not in (".", "..")]
    for w in words:
        for n in dict.fromkeys([w + ".md", w, "doc" + w, "doc." + w.lstrip("."), "a " + w + " b.md", w + "." + w]):
            if n in ("..", ".") or n in NAMES or n.startswith("~"):
                continue
            for others in ("taken", "none"):
                jobs.append((ck.area, n, "in", "relative", "elsewhere", "html", others, doc, html))
        for spell, cwd in (("relative", "place"), ("relative", "root"), ("absolute", "root")):
            jobs.append((ck.area, "doc.md", "in/" + w, spell, cwd, "html", "taken", doc, html))
            if not w.startswith(("~", "-")):
                jobs.append((ck.area, "doc.md", w, spell, cwd, "html", "taken", doc, html))
        pdfs.append((ck.area, w + ".md", "in", "relative", "place", "pdf", "taken", doc, html))
    for name, place, others in itertools.product(NAMES, PLACES[:2], ["empty files", "equal files", "equal outputs", "read-only files"]):
        for cwd in ("root", "elsewhere"):
            jobs.append((ck.area, name, place, "relative", cwd, "html", others, doc, html))
        if place and name in NAMES[:6]:
            pdfs.append((ck.area, name, place, "relative", "elsewhere", "pdf", others, doc, html))
    for n in ck.sizes(1000, 2 ** 20):
        for d in sized(n, 1):
            jobs.append((ck.area, "doc.md", "in", "relative", "elsewhere", "html", "earlier", d, ck.render(d)))
    # earlier outputs that resemble the new one
    for e in LIKE:
        for n in ("doc.md", "doc", "a.b.md"):
            jobs.append((ck.area, n, "in", "relative", "place", "html", e, doc, html))
            pdfs.append((ck.area, n, "in", "relative", "place", "pdf", e, doc, html))
    # configurations and environments
    for _, config, env in ck.settings():
        for n, others in itertools.product(("doc.md", "doc", "doc.html", "a.b.md", "é木.md"), ("taken", "none", "earlier", "link", "hard")):
            for place, cwd in (("in", "place"), ("in", "elsewhere")):
                jobs.append((ck.area, n, place, "relative", cwd, "html", others, doc, html, config, env))
            if others in ("taken", "earlier") and n == "doc.md" and "TMPDIR" not in env:
                pdfs.append((ck.area, n, "in", "relative", "elsewhere", "pdf", others, doc, html, config, env))
    violation = None
    try:
        for r in ck.map(job, jobs, chunk=8):
            ck.count(**{"html_" + r: 1})
        for r in ck.map(job, pdfs, workers=28):
            ck.count(**{"pdf_" + r: 1})
    except Violation as e:
        violation = str(e)
    for j in jobs[:: len(jobs) // 6] + pdfs[:: len(pdfs) // 4]:
        ck.sample(dict(name=j[1], place=j[2], spelling=j[3], cwd=j[4], format=j[5], other_files=j[6]))
    n = sum(ck.counts.values())
    return ck, ck.finish("exploration", dict(evaluations=n, distinct_nontrivial=n, **ck.counts, exhaustive=violation is None,
        rule="one evaluation: one execution of the smd binary with the tree compared before and after (kind, mode, inode, time of change, content of every file). All combinations of input name x place x spelling of the path x working directory x format x neighbouring files, all distinct; non-trivial: every one converts a document or has to refuse."),
        ["PDFs are made by a stand-in browser"], violation)
