// Stand-in for papaparse: plain comma separated values.
const typed = (s) => (s === "true" || s === "TRUE" ? true : s === "false" || s === "FALSE" ? false : /^\s*-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*$/.test(s) ? parseFloat(s) : s === "" ? null : s);
export const parse = (text, o = {}) => {
  let rows = text.split(o.newline ?? /\r?\n/).map((l) => l.split(o.delimiter || ","));
  if (o.skipEmptyLines) rows = rows.filter((r) => (o.skipEmptyLines === "greedy" ? r.some((c) => c.trim() !== "") : r.length > 1 || r[0] !== ""));
  if (o.transform) rows = rows.map((r) => r.map((c, i) => o.transform(c, i)));
  let fields;
  if (o.header) fields = rows.shift();
  if (o.dynamicTyping) rows = rows.map((r) => r.map(typed));
  const data = o.header ? rows.map((r) => Object.fromEntries(r.map((c, i) => [fields[i] ?? "__parsed_extra", c]))) : o.preview ? rows.slice(0, o.preview) : rows;
  const result = { data, errors: [], meta: { fields, delimiter: ",", linebreak: "\n", aborted: false, truncated: false } };
  if (!o.complete && !o.step) return result;
  setTimeout(() => {
    if (o.step) data.forEach((row) => o.step({ data: row, errors: [], meta: result.meta }, { abort() {}, pause() {}, resume() {} }));
    o.complete?.(o.step ? { data: [], errors: [], meta: result.meta } : result);
  }, 0);
  return o.worker ? undefined : result;
};
const Papa = { parse };
export default Papa;
