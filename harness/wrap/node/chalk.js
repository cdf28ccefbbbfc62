// any colour or style, also chained; red means that something went wrong
const make = (red) => {
  const f = (...x) => { if (red) process.exitCode = 3; return x.join(" "); };
  return new Proxy(f, { get: (_, n) => (["hex", "rgb", "bgHex", "bgRgb", "ansi256"].includes(n) ? () => make(red) : make(red || n === "red" || n === "redBright")) });
};
const c = make(false);
export default c;
