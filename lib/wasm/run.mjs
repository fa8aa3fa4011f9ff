// node run.mjs MODULE COMMAND --key value ...: the WebAssembly harness
import fs from "node:fs";
const [path, ...args] = process.argv.slice(2);
const opt = (k) => { const i = args.indexOf("--" + k); return i < 0 ? null : args[i + 1]; };
let x;
const text = (p, n) => Buffer.from(x.memory.buffer, p >>> 0, n >>> 0).toString();
const host = { now: () => performance.now(), log: (p, n) => console.log(text(p, n)) };
x = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(path)), { host }).exports;
const a = Buffer.from(args.join("\n"));
const p = x.memory_for(a.length) >>> 0;
a.copy(Buffer.from(x.memory.buffer, p, a.length));
let status;
try {
  status = x.run(p, a.length);
} catch (e) {
  if (!(e instanceof WebAssembly.RuntimeError)) throw e;
  console.log("trap: " + e.message);
  if (!opt("crash")) process.exit(3);
  const d = Buffer.from(Buffer.from(x.memory.buffer, x.page() >>> 0, x.page_size()));
  d.writeBigUInt64LE(5n, 0); // a trap
  fs.writeFileSync(opt("crash"), d);
  process.exit(77);
}
if (status < 2) {
  const r = text(x.report(), x.report_size());
  if (opt("out")) fs.writeFileSync(opt("out"), r); else console.log(r);
}
process.exit(status);
