// Stand-in for neo-blessed: remembers keys and what is shown.
export const seen = { keys: {}, table: null, boxes: [] };
const widget = (o = {}) => {
  const w = { options: o, handlers: {}, append() {}, on(e, f) { w.handlers[e] = f; }, once(e, f) { w.handlers[e] = f; }, addListener(e, f) { w.handlers[e] = f; }, setData(d) { seen.table = d; }, setRows(d) { seen.table = d; }, log() {}, render() {}, key(ks, f) { [].concat(ks).forEach((k) => (seen.keys[k] = f)); } };
  // whatever else a widget has: a method that does nothing
  return new Proxy(w, { get: (t, k) => (k in t || typeof k === "symbol" || k === "then" ? t[k] : () => {}), set: (t, k, v) => ((t[k] = v), true) });
};
export const screen = () => { seen.keys = {}; return widget(); };
export const box = widget;
export const form = widget;
export const listtable = widget;
export const checkbox = (o) => { const w = widget(o); seen.boxes.push(w); return w; };
export const [text, list, button, table, log, layout, line, textbox, scrollablebox, radioset, radiobutton] = Array(11).fill(widget);
