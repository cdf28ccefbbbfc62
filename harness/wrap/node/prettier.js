module.exports = { format: async (x) => x, resolveConfig: async () => null, check: async () => true };
