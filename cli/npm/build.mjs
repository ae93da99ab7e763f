// build.mjs <sources> <target>: strips the types of the wrapper's sources, file by file.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const [from, to] = process.argv.slice(2);
for (const f of fs.readdirSync(from, { recursive: true })) {
  if (!/\.[mc]?tsx?$/.test(f) || f.endsWith(".d.ts")) continue;
  const out = esbuild.transformSync(fs.readFileSync(path.join(from, f), "utf8"), { loader: "ts", format: "esm", target: "node20" });
  const dest = path.join(to, f.replace(/\.([mc]?)tsx?$/, ".$1js"));
  fs.mkdirSync(path.dirname(dest), { recursive: true });
  fs.writeFileSync(dest, out.code);
}
