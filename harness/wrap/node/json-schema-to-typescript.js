// Stand-in for json-schema-to-typescript: the interface of an operator, one line for each property.
export const compile = async (schema, name) =>
  `/* generated */\n\nexport interface ${name} {\n` +
  Object.keys(schema.properties)
    .map((k) => `  ${k}${schema.required.includes(k) ? "" : "?"}: ${k === "type" ? JSON.stringify(name) : "any"};`)
    .join("\n") +
  "\n  [k: string]: unknown;\n}\n";
