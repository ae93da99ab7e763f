// Stands in for execa: records what would be run.
export const calls = (globalThis.__calls ??= []);
export function execa(file, args, options) {
  if (!Array.isArray(args)) [args, options] = [[], args];
  calls.push({ file: String(file), args: args.map((a) => (typeof a === "string" ? a : { notAString: String(a) })), options });
  return Promise.resolve({ exitCode: 0, stdout: "", stderr: "", command: "", failed: false });
}
export const execaSync = execa;
export const execaNode = execa;
export default execa;
