// Stand-in for immer: the draft is a deep copy.
const copy = (x) => (Array.isArray(x) ? x.map(copy) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, copy(v)])) : x);
export const produce = (x, f, ...more) => {
  if (typeof x === "function") return (y, ...z) => produce(y, (d) => x(d, ...z)); // curried
  const d = copy(x);
  const r = f(d, ...more);
  return r === undefined ? d : r;
};
export const current = copy;
export const original = copy;
export const isDraft = () => false;
export const freeze = (x) => x;
export const enableMapSet = () => {};
export const setAutoFreeze = () => {};
export const createDraft = copy;
export const finishDraft = (d) => d;
export default produce;
