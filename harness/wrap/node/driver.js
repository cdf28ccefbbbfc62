// Replays histories of a program, its runs and the debugger with the javascript package; one job in each line, one answer in each line.
import fs from "fs";
import os from "os";
import path from "path";
import * as rb from "@rtbot-dev/rtbot";
import { call } from "@rtbot-dev/wasm";
import { debuggerStore } from "@cli/tui/store";
import { tui } from "@cli/tui/index";
import { registerDebug } from "@cli/commands/debug";
import { seen } from "neo-blessed-seen";
import { Command } from "commander";

console.log = console.error = () => {};
const schema = JSON.parse(fs.readFileSync(process.env.RT_SCHEMA, "utf8"));
const names = Object.fromEntries(schema.properties.operators.items.oneOf.map((s) => [s.properties.type.enum[0], Object.keys(s.properties).filter((k) => k !== "type")]));
const text = (e) => String(e?.message ?? e) || "error";
const trying = (f) => { try { return { ok: f() }; } catch (e) { return { err: text(e) }; } };
const tryingAsync = async (f) => { try { return { ok: await f() }; } catch (e) { return { err: text(e) }; } };
const plain = (x) => (x === undefined ? null : JSON.parse(JSON.stringify(x)));

const operator = (c) => new rb[c.type](...names[c.type].map((n) => c[n]));
const api = (...a) => trying(() => call(...a));

async function history(job) {
  let p;
  const res = [];
  for (const a of job.hist) {
    const r = trying(() => {
      const find = (id) => p.operators.find((o) => o.id === id) ?? new rb.Count(id);
      const or = (x) => (x === "" ? undefined : x);
      if (a[0] === "new") p = new rb.Program(a[1].entry, a[1].title, a[1].description, a[1].date, a[1].author, a[1].license);
      else if (a[0] === "add") p.addOperator(operator(a[1]));
      else if (a[0] === "conn") p.addConnection(find(a[1][0]), find(a[1][2]), or(a[1][1]), or(a[1][3]));
      else if (a[0] === "reload") p = rb.Program.toInstance(JSON.parse(JSON.stringify(p.toPlain())));
      else if (a[0] === "delop") p.deleteOperator(a[1]);
      else if (a[0] === "delconn") p.deleteConnection(a[1][0], a[1][2], or(a[1][1]), or(a[1][3]));
      else throw new Error("unknown " + a[0]);
    });
    res.push([r.err === undefined ? "ok" : "refused", trying(() => plain(p.toPlain()))]);
  }
  res.push({ ok: { valid: p.safeValidate().success } });
  const other = "other";
  call("createProgram", other, JSON.stringify({ apiVersion: "v1", entryOperator: "c", operators: [{ type: "Count", id: "c" }], connections: [] }));
  const feed = (t) => trying(() => { call("addToMessageBuffer", other, "i1", t, 5); return JSON.parse(call("processMessageBuffer", other)); });
  let count = 0;
  for (const rows of job.rows) {
    for (const format of [rb.RtBotRunOutputFormat.COLLAPSED, rb.RtBotRunOutputFormat.EXTENDED]) {
      feed(++count);
      const run = await tryingAsync(async () => {
        const r = new rb.RtBotRun(count % 4 < 2 ? p : JSON.stringify(p.toPlain()), rows, format);
        await r.run();
        return plain(r.getOutputs());
      });
      res.push([run, api("getProgramEntryOperatorId", p.programId).err === undefined]);
    }
    // the methods for production
    feed(++count);
    const started = await tryingAsync(() => p.start());
    const out = [];
    if (started.err === undefined) {
      for (const [time, ...values] of rows) {
        const row = [];
        for (let k = 0; k < values.length; k++) {
          const f = (k + count) % 2 ? "processMessage" : "processMessageDebug";
          row.push(await tryingAsync(async () => plain(await p[f](time, values[k], k === 0 ? undefined : `i${k + 1}`))));
          if (row[row.length - 1].err !== undefined) break;
        }
        out.push(row);
        if (row.length && row[row.length - 1].err !== undefined) break;
      }
    }
    const during = api("getProgramEntryOperatorId", p.programId).err === undefined;
    const stopped = await tryingAsync(() => p.stop());
    const after = api("getProgramEntryOperatorId", p.programId).err === undefined;
    res.push([started, out, during, stopped, after]);
    api("deleteProgram", p.programId);
  }
  res.push(feed(count + 1));
  res.push(trying(() => plain(p.toPlain())));
  call("deleteProgram", other);
  return res;
}

// operators made by the generated classes: the json, or refused
const make = (job) => job.make.map((c) => trying(() => plain(operator(c))));

// what the schema of the package says of a document
const check = (job) => job.check.map((t) => {
  const p = rb.Program.toInstance(JSON.parse(t));
  return [p.safeValidate().success, trying(() => rb.Program.checkValid(t)).err === undefined];
});

async function session(job) {
  const r = await tryingAsync(async () => {
    const run = new rb.RtBotRun(JSON.stringify(job.session), job.rows, job.extended ? rb.RtBotRunOutputFormat.EXTENDED : rb.RtBotRunOutputFormat.COLLAPSED);
    await run.run();
    return plain(run.getOutputs());
  });
  return [r];
}

// the debugger: what is shown after each action
function tour(job) {
  const res = [];
  const sends = [];
  const stop = debuggerStore.subscribe(() => {});
  const s = debuggerStore.getState;
  for (const a of job.tour) {
    const r = trying(() => {
      if (a[0] === "init") { debuggerStore.setState({ iteration: 0 }); s().init({ operators: a[1] }, a[2]); }
      else if (a[0] === "forward" || a[0] === "backward") s()[a[0]]();
      else if (a[0] === "select") s().selectOperator(a[1], a[2]);
      else throw new Error("unknown " + a[0]);
    });
    res.push([r.err ?? "", plain(s().columns), s().iteration, plain(s().operators)]);
  }
  stop();
  return res;
}

// the same through the screen: keys and check boxes
function screen(job) {
  const res = [];
  debuggerStore.destroy();
  debuggerStore.setState({ iteration: 0, columns: [], operators: [] });
  seen.table = null;
  seen.boxes = [];
  for (const a of job.screen) {
    const r = trying(() => {
      if (a[0] === "init") tui({ operators: a[1] }, a[2]);
      else if (a[0] === "forward") seen.keys["right"]();
      else if (a[0] === "backward") seen.keys["left"]();
      else if (a[0] === "select") {
        const b = seen.boxes.filter((w) => w.options.text.startsWith(a[1] + " ["));
        b[b.length - 1].handlers[a[2] ? "check" : "uncheck"]();
      }
    });
    res.push([r.err ?? "", plain(seen.table)]);
  }
  return res;
}

// the command line: files in, file or text out
async function command(job) {
  const res = [];
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "rt-cli-"));
  const keep = [console.log, console.error, process.exit];
  for (const c of job.command) {
    for (const [f, what] of [["p.json", c.program], ["d.csv", c.data]]) {
      if (what === null) fs.rmSync(path.join(dir, f), { force: true });
      else fs.writeFileSync(path.join(dir, f), what);
    }
    seen.table = null;
    seen.boxes = [];
    seen.keys = {};
    debuggerStore.destroy();
    debuggerStore.setState({ iteration: 0, columns: [], operators: [] });
    const said = [];
    let code = 0;
    console.log = (...a) => said.push(a.map((x) => (typeof x === "string" ? x : text(x))).join(" "));
    console.error = console.log;
    process.exit = (n) => { code = n; throw new Error("exit " + n); };
    const r = await tryingAsync(async () => {
      const prog = new Command();
      prog.exitOverride();
      registerDebug(prog);
      const out = c.output ? ["-o", path.join(dir, "o.json")] : [];
      await prog.parseAsync(["debug", path.join(dir, "p.json"), path.join(dir, "d.csv"), ...out, ...(c.options ?? [])], { from: "user" });
    });
    [console.log, console.error, process.exit] = keep;
    let written = null;
    if (fs.existsSync(path.join(dir, "o.json"))) {
      written = trying(() => JSON.parse(fs.readFileSync(path.join(dir, "o.json"), "utf8")));
      fs.unlinkSync(path.join(dir, "o.json"));
    }
    const shown = plain(seen.table);
    if (shown) seen.keys["right"]();
    res.push([r.err ?? "", code, said, written, shown, shown && plain(seen.table)]);
  }
  fs.rmSync(dir, { recursive: true });
  return res;
}

let rest = "";
const buf = Buffer.alloc(1 << 16);
const next = () => {
  for (;;) {
    const i = rest.indexOf("\n");
    if (i >= 0) { const l = rest.slice(0, i); rest = rest.slice(i + 1); return l; }
    const n = fs.readSync(0, buf, 0, buf.length, null);
    if (n <= 0) return null;
    rest += buf.toString("utf8", 0, n);
  }
};
(async () => {
  for (let line = next(); line !== null; line = next()) {
    const job = JSON.parse(line);
    const f = job.hist ? history : job.make ? make : job.check ? check : job.session ? session : job.tour ? tour : job.screen ? screen : command;
    const r = await f(job);
    fs.writeSync(1, JSON.stringify({ id: job.id, res: r }) + "\n");
  }
  process.exit(0);
})();
