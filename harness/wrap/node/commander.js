// Stand-in for commander: commands with arguments and options.
const camel = (s) => s.replace(/-(.)/g, (_, c) => c.toUpperCase());
export class Command {
  constructor(name) { this.called = name; this.commands = []; this.args = []; this.options = []; this.act = () => {}; }
  name(n) { this.called = n; return this; }
  description() { return this; }
  summary() { return this; }
  usage() { return this; }
  alias() { return this; }
  showHelpAfterError() { return this; }
  allowUnknownOption() { return this; }
  addHelpText() { return this; }
  configureOutput() { return this; }
  configureHelp() { return this; }
  hook() { return this; }
  addCommand(c) { this.commands.push(c); return this; }
  addArgument(a) { this.args.push(a); return this; }
  arguments(line) { line.split(" ").forEach((a) => this.argument(a)); return this; }
  addOption(o) { this.option(...o.given); Object.assign(this.options[this.options.length - 1], o.more); return this; }
  version() { return this; }
  exitOverride() { return this; }
  command(line) {
    const [n, ...args] = line.split(" ");
    const c = new Command(n);
    args.forEach((a) => c.argument(a));
    this.commands.push(c);
    return c;
  }
  argument(n, _, ...d) { this.args.push({ needed: !n.startsWith("[") && !d.length, or: d[0] }); return this; }
  option(flags, _, ...d) {
    const parts = flags.split(/[ ,|]+/);
    const parse = typeof d[0] === "function" ? d.shift() : undefined;
    const takes = /[<\[]/.test(flags);
    this.options.push({ flags: parts.filter((f) => f.startsWith("-")), takes, parse, or: d[0], key: camel(parts.filter((f) => f.startsWith("--"))[0].slice(2)) });
    return this;
  }
  requiredOption(...a) { this.option(...a); this.options[this.options.length - 1].needed = true; return this; }
  action(f) { this.act = f; return this; }
  parse(argv, o) { this.parseAsync(argv, o); return this; }
  async parseAsync(argv = process.argv, { from } = {}) {
    const given = from === "user" ? argv : argv.slice(2);
    const c = this.commands.find((x) => x.called === given[0]) ?? this;
    const rest = c === this ? given : given.slice(1);
    const opts = {};
    const args = [];
    for (const o of c.options) if (o.or !== undefined) opts[o.key] = o.or;
    for (let i = 0; i < rest.length; i++) {
      const [, flag, , value] = /^(-[^=]*)(=([^]*))?$/.exec(rest[i]) ?? [];
      const o = c.options.find((x) => x.flags.includes(flag));
      if (flag && !o) throw new Error("unknown option " + flag);
      if (!o) args.push(rest[i]);
      else if (!o.takes) opts[o.key] = true;
      else {
        const v = value ?? rest[++i];
        if (v === undefined) throw new Error("option without argument " + flag);
        opts[o.key] = o.parse ? o.parse(v, opts[o.key]) : v;
      }
    }
    c.args.forEach((a, i) => { if (args[i] === undefined) { if (a.needed) throw new Error("missing argument"); args[i] = a.or; } });
    for (const o of c.options) if (o.needed && opts[o.key] === undefined) throw new Error("missing option " + o.key);
    c.opts = () => opts;
    await c.act(...args, opts, c);
    return this;
  }
}
export class Option {
  constructor(...given) { this.given = given; this.more = {}; }
  default(or) { this.more.or = or; return this; }
  argParser(parse) { this.more.parse = parse; return this; }
  choices() { return this; }
  makeOptionMandatory() { this.more.needed = true; return this; }
  hideHelp() { return this; }
}
export class Argument {
  constructor(n) { this.needed = !n.startsWith("["); }
  default(or) { this.or = or; this.needed = false; return this; }
  choices() { return this; }
}
export const createCommand = (n) => new Command(n);
export class InvalidArgumentError extends Error {}
export const program = new Command();
