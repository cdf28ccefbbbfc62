// The module that emscripten would make: calls of the functions exposed by libs/api/wasm, answered by apiserver over pipes.
import fs from "fs";
const [IN, OUT] = (process.env.RT_FDS ?? "4,3").split(",").map(Number);
let rest = "";
const buf = Buffer.alloc(1 << 16);
export const call = (...c) => {
  fs.writeSync(OUT, JSON.stringify(c) + "\n");
  for (;;) {
    const i = rest.indexOf("\n");
    if (i >= 0) {
      const r = JSON.parse(rest.slice(0, i));
      rest = rest.slice(i + 1);
      if (r.err !== undefined) throw new Error(r.err);
      return r.r;
    }
    const n = fs.readSync(IN, buf, 0, buf.length, null);
    if (n <= 0) process.exit(97);
    rest += buf.toString("utf8", 0, n);
  }
};
const module_ = new Proxy({}, { get: (_, name) => (typeof name === "symbol" || name === "then" ? undefined : (...a) => call(name, ...a)) });
export default () => Promise.resolve(module_);
