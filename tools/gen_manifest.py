#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit here, then run."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = "Trusted: the strict HTML reader (mc/src/html.rs), rustc, and that documents outside the listed spaces behave like those in them (small-scope hypothesis)."
MODEL = ("Holds for every document of the spaces listed in the evidence file, all of which are rendered by the real gfm crate "
         "and compared with an independent reference model as canonical DOM trees. Trusted in addition: the reference model (mc/src/model.rs). " + TRUST)
INV = "Holds for every document of the spaces listed in the evidence file, each rendered by the real gfm crate and judged by an invariant. " + TRUST

def mc(id, technique, level, note):
    return dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
                technique=technique, level=level, level_note=note)

ENUM = "bounded exhaustive enumeration of documents on the real renderer, "
checks = [
 mc("C01", ENUM + "panic/crash/hang oracle in supervised worker processes", "exploration", INV),
 mc("C02", ENUM + "element and attribute allow-list plus decoded-text oracle and reference model", "model_checking", MODEL),
 mc("C03", ENUM + "browser URL normalisation oracle and reference model", "model_checking", MODEL),
 mc("C04", ENUM + "strict HTML tree reader with content model", "exploration", INV),
 mc("C05", ENUM + "every word tracked through the HTML", "exploration", INV),
 *[mc(i, ENUM + "conformance of every trace with a reference model", "model_checking", MODEL)
   for i in ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14")],
 mc("C15", ENUM + "differential oracle (parts against whole)", "exploration", INV),
 mc("C16", ENUM + "differential oracle (line ending variants)", "exploration", INV),
 mc("C17", "stateless exploration of all histories of renders and all interleavings of concurrent renders within a preemption bound, fresh-process oracle", "model_checking",
    "Holds for every history, log level and schedule of the spaces in the evidence file, executed on the real gfm crate. Scheduling points are the renderer's log statements; gfm is safe Rust, so state between them is shared only through locks and atomics. " + TRUST),
 mc("C18", ENUM + "conformance of every trace with a reference model", "model_checking", MODEL),
 mc("C19", ENUM + "conformance of every trace with a reference model", "model_checking", MODEL),
]
PROG = ("Holds for every execution of the spaces listed in the evidence file; each runs the smd binary built from /repo's working tree as an unprivileged user in a scratch directory. "
        "Trusted: the preloaded system call stand-ins (cli/shim.c), the stand-in browser (cli/chrome.py), the directory comparison (cli/lib.py), and that executions outside the bounds behave like those in them.")
REND = " The expected HTML comes from the gfm crate of the same tree; C01-C19 judge it."
checks += [
 mc("C20", "exhaustive fault injection on the real binary: every sequence of short, interrupted and failing file operations up to a bound", "fault_enumeration", PROG + REND),
 mc("C21", "exhaustive enumeration of input names, path spellings, links, directories and surrounding files on the real binary, directory tree diff", "exploration", PROG + REND),
 mc("C22", "exhaustive enumeration of the combinations of input, configuration, output place and command line on the real binary", "exploration", PROG),
 mc("C23", "exhaustive fault injection on the real binary: every step of the browser protocol and every file operation fails, closes or dies", "fault_enumeration", PROG + REND),
 mc("C24", "stateless model checking of two real processes under a controlled scheduler: all interleavings of their file and browser steps up to a preemption bound", "model_checking", PROG + REND),
 mc("C25", "stateless model checking of real processes under a controlled scheduler: all interleavings of their system calls and all failing calls", "model_checking", PROG),
 mc("C26", "exhaustive enumeration of files and environments over the real loader, conformance of every result with a reference model of the configuration", "model_checking",
    PROG + " Loading is driven through smd_core's public functions (probe/) and through the binary; the reference model of a configuration is in cli/c26.py."),
 mc("C27", "exhaustive enumeration of verbosity flags, RUST_LOG values, commands and documents on the real binary, differential oracle", "exploration", PROG),
 mc("C28", "exhaustive enumeration of platforms, option objects, argument lists and exits over the real wrapper with a recording stand-in for process creation", "exploration",
    "Holds for every call of the spaces listed in the evidence file, on npm/smd/src compiled from /repo's working tree. Trusted: esbuild, node, the stand-ins for the operating system and execa (cli/npm); npm's own packages are not installed here."),
 mc("C29", "exhaustive enumeration of operation sequences on the real library with exhaustive fault injection, reference model of a file", "fault_enumeration",
    PROG + " Operations are driven through smd_core's public functions (probe/)."),
]
checks.sort(key=lambda c: c["property"])
claimed = {c["property"] for c in checks}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [dict(property=p["id"], reason="not claimed") for p in props if p["id"] not in claimed]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives public entry points (gfm::Parser, the smd_core API, the smd binary, the npm wrapper)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
