// Stand-in for class-transformer: what the library of rtbot uses of it.
const hidden = new Map(); // prototype -> names
export const Exclude = () => (target, name) => {
  if (!hidden.has(target)) hidden.set(target, new Set());
  hidden.get(target).add(name);
};
const isHidden = (o, k) => {
  for (let p = Object.getPrototypeOf(o); p; p = Object.getPrototypeOf(p)) if (hidden.get(p)?.has(k)) return true;
  return false;
};
export const instanceToPlain = (x) => {
  if (Array.isArray(x)) return x.map(instanceToPlain);
  if (x === null || typeof x !== "object") return x;
  const r = {};
  for (const k of Object.keys(x)) if (!isHidden(x, k)) r[k] = instanceToPlain(x[k]);
  return r;
};
const copy = (x) => (Array.isArray(x) ? x.map(copy) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, copy(v)])) : x);
export const plainToInstance = (cls, plain) => {
  if (Array.isArray(plain)) return plain.map((x) => plainToInstance(cls, x));
  const o = new cls();
  for (const k of Object.keys(plain)) o[k] = copy(plain[k]);
  return o;
};
export const instanceToInstance = (x) => Object.assign(Object.create(Object.getPrototypeOf(x)), copy({ ...x }));
export const serialize = (x) => JSON.stringify(instanceToPlain(x));
export const deserialize = (cls, s) => plainToInstance(cls, JSON.parse(s));
export const classToPlain = instanceToPlain;
export const plainToClass = plainToInstance;
