import { load, dump, loadAll } from "js-yaml";
export const parse = (s) => load(s);
export const stringify = (x) => dump(x);
export const parseDocument = (s) => ({ toJS: () => load(s), toJSON: () => load(s), contents: load(s), errors: [] });
export const parseAllDocuments = (s) => loadAll(s).map((x) => ({ toJS: () => x, toJSON: () => x, errors: [] }));
export default { parse, stringify, parseDocument, parseAllDocuments };
