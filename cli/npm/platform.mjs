// Preloaded: makes node believe it runs elsewhere. FAKE_PLATFORM, FAKE_ARCH
import os from "node:os";
import { syncBuiltinESMExports } from "node:module";
import "node:child_process";
import "node:url";
const { FAKE_PLATFORM: p, FAKE_ARCH: a } = process.env;
if (p) {
  os.platform = () => p;
  os.arch = () => a;
  os.type = () => ({ win32: "Windows_NT", darwin: "Darwin", linux: "Linux" })[p] ?? p;
  syncBuiltinESMExports();
  Object.defineProperty(process, "platform", { value: p });
  Object.defineProperty(process, "arch", { value: a });
}
