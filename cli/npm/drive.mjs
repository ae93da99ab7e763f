// drive.mjs <smd package> <quick|thorough> : all calls of the wrapper, recorded.
import fs from "node:fs";
import path from "node:path";
import { pathToFileURL } from "node:url";
const [pkg, tier, expected] = process.argv.slice(2);
const thorough = tier === "thorough";
const lib = (f) => import(pathToFileURL(path.join(pkg, "lib", f)).href);
const { runGitCliff } = await lib("index.js");
// Called directly where it is, for speed; what counts is what runGitCliff passes on
const optionsToStringArgs = await lib("optionsToStringArgs.js").then((m) => m.optionsToStringArgs, () => undefined) ?? (async (o) => (await call(o)).args);
const calls = (globalThis.__calls ??= []);
let count = 0;
const fail = (m) => {
  console.log("V " + m.replaceAll("\n", "\\n"));
  process.exit(0);
};
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

// The binary
const unsupported = expected === "none";
async function call(arg, opts) {
  calls.length = 0;
  try {
    await runGitCliff(arg, opts);
  } catch (e) {
    if (unsupported) return null;
    fail(`${process.platform} ${process.arch}: runGitCliff(${JSON.stringify(arg)}) fails: ${e}`);
  }
  if (unsupported) fail(`${process.platform} ${process.arch}: there is no package for it, but ${JSON.stringify(calls)} is run`);
  if (calls.length !== 1) fail(`runGitCliff(${JSON.stringify(arg)}) runs ${calls.length} programs`);
  const real = (f) => { try { return fs.realpathSync(f); } catch { return f; } };
  if (real(calls[0].file) !== real(expected)) fail(`${process.platform} ${process.arch}: runs ${calls[0].file} and not ${expected}`);
  const used = calls[0].options ?? {};
  if (used.shell) fail(`${process.platform} ${process.arch}: the arguments go through a shell`);
  for (const [k, v] of Object.entries({ stdio: "inherit", ...opts }))
    if (used[k] !== v) fail(`execa is called with ${k} = ${JSON.stringify(used[k])}, given was ${JSON.stringify(v)}`);
  return calls[0];
}
await call([]);
count++;
if (tier === "place") {
  for (const a of [["a b", "é"], { output: "x" }, []]) await call(a);
  console.log("N calls 4\nE");
  process.exit(0);
}
if (unsupported) {
  console.log("N calls 1\nE");
  process.exit(0);
}

// Arguments: all sequences
const words = ["", "a", "a b", "--", "-i", "--output=html", "é木", "*", "$HOME", '"', "'", "\\", "\n", "%PATH%", "a,b", "true", "null", "-", "~", "\u00a0", "A-B"];
const depth = thorough ? 4 : 3;
for (let len = 0; len <= depth; len++) {
  const total = words.length ** len;
  for (let code = 0; code < total; code++) {
    const args = [];
    for (let x = code, i = 0; i < len; i++) {
      args.push(words[x % words.length]);
      x = Math.floor(x / words.length);
    }
    const copy = [...args];
    const c = await call(args, code % 2 ? { reject: false } : undefined);
    if (!same(c.args, copy)) fail(`arguments ${JSON.stringify(copy)} are passed as ${JSON.stringify(c.args)}`);
    if (!same(args, copy)) fail(`the arguments ${JSON.stringify(copy)} of the caller became ${JSON.stringify(args)}`);
    count++;
  }
}
// words that look like something to a shell, a parser or a person
const odd = [];
for (const w of ["a", "a b", "", "HOME", "1"])
  for (const [x, y] of [["'", "'"], ['"', '"'], ["`", "`"], ["$", ""], ["${", "}"], ["$(", ")"], ["%", "%"], ["(", ")"], ["[", "]"], ["{", "}"], ["<", ">"], ["^", ""], ["!", ""], ["#", ""], ["@", ""], ["&", ""], ["|", ""], [";", ""], ["", ";"], ["~/", ""], ["~", ""], ["./", ""], ["../", ""], ["/", ""], ["C:\\", ""], ["--", ""], ["-", ""], ["+", ""], ["=", ""], ["--x=", ""], ["-x", ""], [" ", ""], ["", " "], [" ", " "], ["\t", ""], ["", "\n"], ["", "\r"], ["\\", ""], ["", "\\"], ["", "/"], [",", ","], ["*", ""], ["?", ""], ["file://", ""], ["http://", ""], ["no-", ""], ["--no-", ""], ["", "="], ["\ufeff", ""], ["\u0000", ""].slice(0, 0), ["\u202e", ""], ["\ud83d\ude00", ""], ["%20", ""], ["&amp;", ""]])
    if (x !== undefined) odd.push(x + w + y);
odd.push("undefined", "NaN", "0", "-1", "1e3", "False", "TRUE", "nul", "con", "__proto__", "constructor", "toString", "a\\ b", "a\\\"b", "a=b", "a=b=c", "--output", "--output html", "-ihtml", "-vv", "-h", "--help", "--version", "A", "É", "ß", "İ", "a\u0301", "\u00e1", "x".repeat(5000));
for (const w of odd)
  for (const a of [[w], ["a", w], [w, "a"], [w, w], ["parse", "-i", w], ["--", w], ["-o", w, "-i", "x"]]) {
    const copy = [...a];
    const c = await call(a);
    if (!same(c.args, copy)) fail(`arguments ${JSON.stringify(copy)} are passed as ${JSON.stringify(c.args)}`);
    count++;
  }
for (const o of [{}, { stdio: "pipe" }, { stdio: ["ignore", "pipe", "inherit"] }, { cwd: "/" }, { env: { A: "b" }, extendEnv: false }, { reject: false, timeout: 7 }, { input: "x", stdio: "pipe" }, { all: true }])
  for (const a of [[], ["a b"], { output: "x" }]) {
    await call(a, o);
    count++;
  }
const many = Array.from({ length: 3000 }, (_, i) => "x" + i);
if (!same((await call(many)).args, many)) fail("3000 arguments are not passed unchanged");

// Options: all objects of up to three keys
const source = (f) => { try { return fs.readFileSync(f, "utf8"); } catch { return ""; } };
const declared = [...source(path.join(pkg, "src", "options.ts")).matchAll(/^\s+(\w+)\??:\s/gm)].map((m) => m[1]);
const keys = [...new Set(["help", "input", "output", "topoOrder", "useBranchTags", "v", "x2", "x2Y", "aBCd", ...declared])];
const hyphen = (k) => [...k].map((c) => (c >= "A" && c <= "Z" ? "-" + c.toLowerCase() : c)).join("");
const values = [true, false, null, undefined, "", "a", "a b", "--x", "-", "true", "false", "é", "null", [], ["a"], ["a", "b"], ["b", "a", "a"], [""], ["--x", "y z"], ["a,b"]];
const spell = (o) => {
  const r = [];
  for (const [k, v] of o) {
    if (v === false || v === null || v === undefined) continue;
    if (v === true) r.push("--" + hyphen(k));
    else for (const w of Array.isArray(v) ? v : [v]) r.push("--" + hyphen(k), w);
  }
  return r;
};
const show = (o) => JSON.stringify(o.map(([k, v]) => [k, v === undefined ? "undefined" : v]));
async function options(o) {
  const object = Object.fromEntries(o);
  const want = spell(o);
  const got = await optionsToStringArgs(object);
  if (!same(got, want)) fail(`options ${show(o)} become ${JSON.stringify(got)} and not ${JSON.stringify(want)}`);
  for (const [k, v] of o) if (object[k] !== v) fail(`the options ${show(o)} of the caller are changed`);
  count++;
  return want;
}
for (const k of keys) for (const v of values) {
  const want = await options([[k, v]]);
  const c = await call(Object.fromEntries([[k, v]]));
  if (!same(c.args, want)) fail(`options ${show([[k, v]])} are passed as ${JSON.stringify(c.args)} and not ${JSON.stringify(want)}`);
}
for (const w of odd) for (const k of ["output", "useBranchTags", "v"]) for (const v of [w, [w], ["a", w], [w, "a"]]) await options([[k, v]]);
// what the code mentions, as arguments, keys and values
const mentioned = JSON.parse(process.env.MENTIONED ?? "[]");
for (const w of mentioned) {
  for (const a of [[w], ["a", w], [w, "a"], [w, w], ["--" + w], ["parse", "-i", w], [w.toUpperCase()]]) {
    const copy = [...a];
    const c = await call(a);
    if (!same(c.args, copy)) fail(`arguments ${JSON.stringify(copy)} are passed as ${JSON.stringify(c.args)}`);
    count++;
  }
  for (const k of keys) for (const v of [w, [w], ["a", w], [w, "a"]]) await options([[k, v]]);
  if (/^[a-z]\w*$/i.test(w)) for (const v of values) await options([[w, v]]);
}
await options([]);
const few = thorough ? keys : keys.slice(0, 14);
for (const a of few) for (const b of few) if (a !== b) for (const v of values) for (const w of values) await options([[a, v], [b, w]]);
const three = ["help", "topoOrder", "output"];
for (const u of values) for (const v of values) for (const w of values) {
  await options([[three[0], u], [three[1], v], [three[2], w]]);
  await options([[three[2], u], [three[1], v], [three[0], w]]);
}
if (thorough) for (const u of values) for (const v of values) for (const w of values) for (const x of values) await options([["a", u], ["bC", v], ["d", w], ["eF", x]]);
console.log(`N calls ${count}\nE`);
