// Stand-in for json-schema-to-zod: what the schemas of rtbot use.
const opt = (s, code, required) => ("default" in s ? `${code}.default(${JSON.stringify(s.default)})` : required ? code : `${code}.optional()`);
export const parseSchema = (s) => {
  if (s.enum) return s.enum.length === 1 ? `z.literal(${JSON.stringify(s.enum[0])})` : `z.enum(${JSON.stringify(s.enum)})`;
  switch (s.type) {
    case "object":
      return `z.object({ ${Object.entries(s.properties ?? {})
        .map(([k, v]) => `${JSON.stringify(k)}: ${opt(v, parseSchema(v), (s.required ?? []).includes(k))}`)
        .join(", ")} })`;
    case "array":
      if (Array.isArray(s.items)) return `z.tuple([${s.items.map(parseSchema).join(", ")}])`;
      return (
        `z.array(${s.items ? parseSchema(s.items) : "z.any()"})` +
        (s.minItems !== undefined ? `.min(${s.minItems})` : "") +
        (s.maxItems !== undefined ? `.max(${s.maxItems})` : "")
      );
    case "integer":
    case "number":
      return (
        "z.number()" +
        (s.type === "integer" ? ".int()" : "") +
        (s.minimum !== undefined ? `.gte(${s.minimum})` : "") +
        (s.maximum !== undefined ? `.lte(${s.maximum})` : "")
      );
    case "string":
      return "z.string()";
    case "boolean":
      return "z.boolean()";
    default:
      return "z.any()";
  }
};
