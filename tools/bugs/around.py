"""Bugs in what surrounds the engine, and in programs as a whole."""
W = "/verif/harness/wrap/"


def rd(f):
    return open(W + f).read()


PY = '''import json, sys, types
progs, buf, calls = {}, {}, []
api = types.ModuleType("rtbot.rtbotapi")
def create(i, text):
    progs[i] = json.loads(text)
    return ""
def add(i, port, t, v):
    buf.setdefault(i, {}).setdefault(port, []).append({"time": t, "value": v})
    return ""
def proc(i):
    m = buf.pop(i, {})
    calls.append(m)
    return json.dumps({"in": m})
api.createProgram, api.addToMessageBuffer, api.processMessageBufferDebug = create, add, proc
api.deleteProgram = lambda i: progs.pop(i, None)
api.getProgramEntryPorts = lambda i: json.dumps(["i1", "i2"])
api.validate = api.validateOperator = lambda *x: json.dumps({"valid": True})
rtbot = types.ModuleType("rtbot")
rtbot.rtbotapi = api
sys.modules["rtbot"], sys.modules["rtbot.rtbotapi"] = rtbot, api
exec(open("libs/wrappers/python/rtbot.py").read(), rtbot.__dict__)
class Op(dict):
    def validate(self):
        return {"valid": True}
def same(got, want):
    if got != want:
        print("FAILED: got", got, "want", want)
        sys.exit(1)
'''
PYSH = '''#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 60 python3 -B "$here/demo.py"
'''


def py(body):
    return dict(sh=PYSH, files={"demo.py": PY + body})


JSSH = '''#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
nm=/opt/veriftools/node/node_modules
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r libs/wrappers/javascript/src "$tmp/rtbot"
echo 'export const programSchema = { parse: (x) => x, safeParse: (x) => ({ success: true, data: x }) };' > "$tmp/rtbot/generated.ts"
cp -r apps/cli/src "$tmp/cli"
a() { echo "--alias:$1=$2"; }
$nm/.bin/esbuild "$here/demo.js" --bundle --platform=node --outfile="$tmp/demo.js" --log-level=error \\
  --tsconfig-raw='{"compilerOptions":{"experimentalDecorators":true}}' $(a rtbot "$tmp/rtbot/api.ts") $(a program "$tmp/rtbot/program.ts") \\
  $(a @rtbot-dev/wasm "$here/engine.js") $(a @rtbot-dev/rtbot "$tmp/rtbot/index.ts") $(a store "$tmp/cli/tui/store.ts") $(a debug "$tmp/cli/commands/debug.ts") \\
  $(a nanoid "$here/nanoid.js") $(a class-transformer "$here/class-transformer.js") $(a zustand/vanilla "$here/zustand-vanilla.js") $(a immer "$here/immer.js") \\
  $(a papaparse "$here/papaparse.js") $(a commander "$here/commander.js") $(a blessed "$here/blessed.js") $(a neo-blessed "$here/blessed.js") || exit 3
cd "$tmp" && timeout 60 node demo.js
'''
ENGINE = '''// an engine that gives back what it receives
export const progs = new Map();
const buf = new Map();
export default async () => ({
  createProgram: (id, text) => (progs.set(id, JSON.parse(text)), ""),
  deleteProgram: (id) => String(progs.delete(id)),
  addToMessageBuffer: (id, port, time, value) => (buf.set(id, [...(buf.get(id) ?? []), [port, { time, value }]]), ""),
  processMessageBufferDebug: (id) => {
    const out = {};
    for (const [port, m] of buf.get(id) ?? []) (out["o" + port.slice(1)] ??= []).push(m);
    buf.delete(id);
    return JSON.stringify({ in: out });
  },
  processMessageBuffer: (id) => "{}",
  getProgramEntryPorts: (id) => '["i1"]',
});
'''
JSPRE = '''const same = (got, want) => {
  if (JSON.stringify(got) !== JSON.stringify(want)) {
    console.log("FAILED: got", JSON.stringify(got), "want", JSON.stringify(want));
    process.exit(1);
  }
};
'''


def js(body):
    files = {f: rd("node/" + f) for f in ("nanoid.js", "class-transformer.js", "zustand-vanilla.js", "immer.js", "papaparse.js", "commander.js", "blessed.js")}
    imports = "\n".join(l for l in body.splitlines() if l.startswith("import"))
    rest = "\n".join(l for l in body.splitlines() if not l.startswith("import"))
    return dict(sh=JSSH, files=dict(files, **{"engine.js": ENGINE, "demo.js": imports + "\n" + JSPRE + rest + "\n"}))


RSSH = '''#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
grep -v -e 'use thiserror' -e '#\\[error' apps/rtbot-rs/src/pipelines_registry.rs | sed 's/#\\[derive(Error, Debug)\\]/#[derive(Debug)]/' > "$tmp/src/pipelines_registry.rs"
cp "$here/cxx_bindings.rs" "$here/main.rs" "$tmp/src"
rustc --edition 2021 -A warnings --crate-type rlib --crate-name nanoid -o "$tmp/libnanoid.rlib" "$here/nanoid.rs" || exit 3
rustc --edition 2021 -A warnings --extern nanoid="$tmp/libnanoid.rlib" -o "$tmp/demo" "$tmp/src/main.rs" || exit 3
timeout 60 "$tmp/demo" > "$tmp/out"
rc=$?
grep FAILED "$tmp/out"
exit $rc
'''
RSENGINE = '''use std::sync::Mutex;
pub static PROGS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub mod ffi {
    pub struct RtBotMessage { pub timestamp: u64, pub values: Vec<f64> }
    pub fn create_pipeline(id: String, program: String) -> String {
        if program == "bad" { return "refused".to_string(); }
        super::PROGS.lock().unwrap().push(id);
        "".to_string()
    }
    pub fn delete_pipeline(id: String) -> String {
        super::PROGS.lock().unwrap().retain(|x| *x != id);
        "".to_string()
    }
    pub fn receive_message_in_pipeline(_id: String, message: RtBotMessage) -> Vec<RtBotMessage> { vec![message] }
}
'''
RSPRE = '''mod cxx_bindings;
mod pipelines_registry;
use pipelines_registry::PipelinesRegistry;
fn expect(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
'''


def rs(body):
    return dict(sh=RSSH, files={"cxx_bindings.rs": RSENGINE, "nanoid.rs": rd("rust/nanoid/lib.rs"), "main.rs": RSPRE + "fn main() {\n" + body + "\n}\n"})


REDISSH = '''#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/deps/src"
printf '[package]\\nname = "deps"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nserde_json = "1"\\nthiserror = "2"\\n' > "$tmp/deps/Cargo.toml"
touch "$tmp/deps/src/lib.rs"
(cd "$tmp/deps" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q) || exit 3
D="$tmp/target/debug/deps"
cp -r apps/rtbot-rs/src "$tmp/rtbot_rs"
cp -r apps/redis-module/src "$tmp/redis_rtbot"
cp "$here/cxx_bindings.rs" "$tmp/rtbot_rs/cxx_bindings.rs"
one() { echo "$1=$(ls $D/lib$1-*.rlib | head -1)"; }
mk() { name=$1; src=$2; kind=$3; shift 3; rustc --edition 2021 -A warnings -C debug-assertions=on --crate-type $kind --crate-name $name -L "$tmp" -L "$D" -o "$tmp/$( [ $kind = bin ] && echo demo || echo lib$name.rlib )" "$@" "$src" || exit 3; }
ext() { for x in "$@"; do echo "--extern $x=$tmp/lib$x.rlib"; done; }
mk nanoid "$here/nanoid.rs" rlib
mk jsonschema "$here/jsonschema.rs" rlib --extern $(one serde_json)
mk redis_module "$here/redis_module.rs" rlib
mk rtbot_rs "$tmp/rtbot_rs/lib.rs" rlib $(ext nanoid) --extern $(one thiserror)
mk redis_rtbot "$tmp/redis_rtbot/lib.rs" rlib $(ext nanoid jsonschema redis_module rtbot_rs) --extern $(one thiserror) --extern $(one serde_json)
mk demo "$here/main.rs" bin $(ext redis_module rtbot_rs redis_rtbot) --extern $(one serde_json)
timeout 60 "$tmp/demo" < "$here/jobs.jsonl" > "$tmp/out" 2>/dev/null || { echo "FAILED: died"; exit 1; }
python3 "$here/judge.py" "$tmp/out"
'''


def redis(jobs, judge):
    return dict(sh=REDISSH, files={"cxx_bindings.rs": rd("rust/cxx_bindings.rs"), "nanoid.rs": rd("rust/nanoid/lib.rs"), "jsonschema.rs": rd("rust/jsonschema/lib.rs"),
                                   "redis_module.rs": rd("rust/redis-module/lib.rs"), "main.rs": rd("rust/driver/main.rs"), "jobs.jsonl": jobs, "judge.py": judge})


SRVSH = """#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
T='tokio = { version = "1", features = ["full"] }'
F='futures-util = { version = "0.3", default-features = false, features = ["sink", "std"] }'
S='serde = { version = "1", features = ["derive"] }'
J='serde_json = "1"'
W='world = { path = "../world" }'
crate() { name=$1; shift; mkdir -p "$tmp/$name/src"; [ -f "$here/$name.rs" ] && cp "$here/$name.rs" "$tmp/$name/src/lib.rs"
  { printf '[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\n' "$name"; printf '%s\\n' "$@"; } > "$tmp/$name/Cargo.toml"; }
stubs="nanoid redis tokio_tungstenite config glob pretty_env_logger jsonpath_rust warp world"
paths=$(for s in $stubs; do echo "$s = { path = \\"../$s\\" }"; done)
crate nanoid
crate world "$J"
crate redis "$W" "$T" "$F"
crate tokio_tungstenite "$W" "$T" "$F"
crate config "$W" "$S" "$J"
crate glob
crate pretty_env_logger
crate jsonpath_rust "$W" "$J"
crate warp "$W" "$T" "$F" "$S" "$J"
crate rtbot_server "$T" "$F" "$S" "$J" 'thiserror = "1"' 'log = "0.4"' 'url = "2"' "$paths"
cp apps/rtbot-server/src/* "$tmp/rtbot_server/src"
mv "$tmp/rtbot_server/src/main.rs" "$tmp/rtbot_server/src/lib.rs"
echo 'pub fn rt_main() -> String { match main() { Ok(_) => String::new(), Err(e) => e.to_string() } }' >> "$tmp/rtbot_server/src/lib.rs"
crate driver "$J" 'rtbot_server = { path = "../rtbot_server" }' "$W"
cp "$here/main.rs" "$tmp/driver/src"
(cd "$tmp/driver" && RUSTFLAGS="-A warnings" cargo build --offline -q) || exit 3
timeout 100 "$tmp/driver/target/debug/driver" < "$here/jobs.jsonl" > "$tmp/out" 2>/dev/null || { echo "FAILED: died"; exit 1; }
python3 "$here/judge.py" "$tmp/out"
"""


def srv(steps, judge, times=1):
    """runs the steps a number of times; judge is python over r, the results of one of them"""
    import json
    job = {"config": {"url": "u", "rtbot": {"program": {"json": "{}"}}, "redis": {"url": "r"},
                      "input_ws": {"url": "wss://x/y", "operator_id": "i1", "json_remap": {"timestamp": "$.T", "values": ["$.p"]}}}, "steps": steps}
    files = {n + ".rs": rd("rust/server/%s.rs" % n) for n in ("world", "redis", "tokio_tungstenite", "config", "glob", "pretty_env_logger", "jsonpath_rust", "warp", "main")}
    files.update({"nanoid.rs": rd("rust/nanoid/lib.rs"), "jobs.jsonl": "".join(json.dumps(dict(job, id=k)) + "\n" for k in range(times)),
                  "judge.py": "import json, sys\nfor l in open(sys.argv[1]):\n    r = json.loads(l)['res']\n    " + judge.replace("\n", "\n    ") + "\n"})
    return dict(sh=SRVSH, files=files)


SRV = "apps/rtbot-server/src/"
RTPY, PTS, ATS = "libs/wrappers/python/rtbot.py", "libs/wrappers/javascript/src/program.ts", "libs/wrappers/javascript/src/api.ts"
REG, STORE, DEBUG = "apps/rtbot-rs/src/pipelines_registry.rs", "apps/cli/src/tui/store.ts", "apps/cli/src/commands/debug.ts"

BUGS = [
    dict(id="py-shared-lists", property="C23",
         edits=[(RTPY, "        operators=None,\n        connections=None,\n", "        operators=[],\n        connections=[],\n"),
                (RTPY, "        self.operators = operators if operators is not None else []\n        self.connections = connections if connections is not None else []\n",
                 "        self.operators = operators\n        self.connections = connections\n")],
         needs="two programs built without operators given, one after the other, in the same process",
         breaks="programs built from nothing share their lists of operators and connections",
         **py('''a, b = rtbot.Program(), rtbot.Program()
a.addOperator(Op(id="x", type="Input"))
same(len(a.operators), 1)
same(json.loads(b.toJson())["operators"], [])
''')),
    dict(id="py-same-time-skipped", property="C23",
         edits=[(RTPY, "        for row in self.data:\n", "        # nothing new happens at a time that was sent already\n        for row in [r for k, r in enumerate(self.data) if k == 0 or r[0] > self.data[k - 1][0]]:\n")],
         needs="a row with the time of an earlier one and an entry operator that is no Input, or a new port",
         breaks="rows whose time is not newer are not sent",
         **py('''p = rtbot.Program([{"id": "in", "type": "Add", "value": 1}], [], "in")
r = rtbot.Run(p, [[1, 5], [1, 6], [2, 7]]).exec()
same(len(calls), 3)
same(r["in:i1"], {"time": [1, 1, 2], "value": [5.0, 6.0, 7.0]})
''')),
    dict(id="js-one-connection", property="C24",
         edits=[(PTS, "        ({ from, to, fromPort, toPort }) =>\n          from === opFrom.id && to === opTo.id && fromPort === opFromPort && toPort === opToPort\n      )",
                 "        ({ from, to, toPort }) => from === opFrom.id && to === opTo.id && toPort === opToPort\n      )")],
         needs="two connections from different ports of an operator to the same port of another one",
         breaks="the second one is refused although it is another connection",
         **js('''import { Program, Operator } from "program";
class Op extends Operator { constructor(id, type) { super(id); this.type = type; } }
const p = new Program();
const [a, b] = [new Op("a", "Input"), new Op("b", "Output")];
p.addOperator(a);
p.addOperator(b);
p.addConnection(a, b, "o1", "i1");
try { p.addConnection(a, b, "o2", "i1"); } catch (e) { same(e.message, ""); }
same(p.connections.length, 2);
try { p.addConnection(a, b, "o2", "i1"); } catch (e) { }
same(p.connections.length, 2);
''')),
    dict(id="js-keeps-first-input", property="C24",
         edits=[(PTS, '    if (op.type === "Input") {\n', '    if (op.type === "Input" && !this.entryOperator) {\n')],
         needs="a program with an entry operator to which another Input is added",
         breaks="the entry operator stays the first one",
         **js('''import { Program, Operator } from "program";
class Op extends Operator { constructor(id, type) { super(id); this.type = type; } }
const p = new Program();
p.addOperator(new Op("a", "Input"));
p.addOperator(new Op("b", "Input"));
same(p.toPlain().entryOperator, "b");
''')),
    dict(id="js-same-output", property="C24",
         edits=[(ATS, "              (this.outputs as CollapsedFormat)[k][0].push(time);\n              // add the values to the correspondent lists in the output\n              (this.outputs as CollapsedFormat)[k][1].push(value);\n",
                 "              const [times, values] = (this.outputs as CollapsedFormat)[k];\n              // no need to repeat the last point\n              if (times.at(-1) === time && values.at(-1) === value) return;\n              times.push(time);\n              values.push(value);\n")],
         needs="an operator that emits the same message twice in a row, in the collapsed format",
         breaks="the second one is missing",
         **js('''import { Program } from "program";
import { RtBotRun, RtBotRunOutputFormat } from "rtbot";
const p = Program.toInstance({ operators: [], connections: [], entryOperator: "in" });
const r = new RtBotRun(p, [[1, 5], [1, 5], [2, 5]], RtBotRunOutputFormat.COLLAPSED);
r.run().then(() => same(r.getOutputs(), { "in:o1": [[1, 1, 2], [5, 5, 5]] }));
''')),
    dict(id="rust-create-first", property="C25", also=["C29"],
         edits=[(REG, '''        let mut pipeline = self.pipelines.lock().unwrap();
        if pipeline.contains_key(input_key) {
            if let''', '''        let mut pipeline = self.pipelines.lock().unwrap();
        let id = nanoid::nanoid!(5);
        println!("Sending program {}", program_json_str);
        let result =
            cxx_bindings::ffi::create_pipeline(id.to_string(), program_json_str.to_string());
        if pipeline.contains_key(input_key) {
            if let'''), (REG, '''        let id = nanoid::nanoid!(5);
        println!("Sending program {}", program_json_str);
        let result =
            cxx_bindings::ffi::create_pipeline(id.to_string(), program_json_str.to_string());
        if result''', "        if result")],
         needs="creating a pipeline between two keys that have one already",
         breaks="the refused creation leaves its program in the engine",
         **rs('''    let r = PipelinesRegistry::new();
    expect(r.create("p", "a", "x").is_ok(), "created");
    expect(r.create("p", "a", "x").is_err(), "refused");
    expect(cxx_bindings::PROGS.lock().unwrap().len() == 1, "one program");''')),
    dict(id="rust-delete-last-two", property="C25",
         edits=[(REG, '''                let result = cxx_bindings::ffi::delete_pipeline(pipeline_id.to_string());
''', '''                // forget input keys without pipelines
                let last = outputs.len() <= 1;
                let result = cxx_bindings::ffi::delete_pipeline(pipeline_id.clone());
                if last {
                    pipeline.remove(input_key);
                }
''')],
         needs="two pipelines of the same input key, of which one is deleted",
         breaks="the other one is forgotten too",
         **rs('''    let r = PipelinesRegistry::new();
    r.create("p", "a", "x").unwrap();
    r.create("p", "a", "y").unwrap();
    r.delete("a", "x").unwrap();
    expect(r.receive("a", 1, vec![1.0]).unwrap().len() == 1, "the other pipeline receives");''')),
    dict(id="cli-selection-at-start", property="C26",
         edits=[(STORE, "    get().updateOperator(id, selected);\n    get().computeColumns();\n", "    get().updateOperator(id, selected);\n    // there are no rows yet at the start\n    if (get().iteration > 0) get().computeColumns();\n")],
         needs="changing the selection at iteration 0",
         breaks="the columns stay as they were",
         **js('''import { debuggerStore } from "store";
debuggerStore.getState().init({ operators: [{ id: "a", type: "Add" }, { id: "b", type: "Add" }] }, [{ in: {}, out: {} }]);
debuggerStore.getState().selectOperator("a", false);
same(debuggerStore.getState().columns, [["iter", "b"]]);
''')),
    dict(id="cli-empty-zero", property="C26",
         edits=[(STORE, "({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`\n            ).join(\", \");",
                 "({ time, value }: any) => `(${time}, ${Math.trunc(value * 100 + (value > 0 ? 0.5 : -0.5)) / 100})`\n            ).slice(0, 2).join(\", \");")],
         needs="an operator that emits more than two messages in an iteration",
         breaks="only two of them are shown",
         **js('''import { debuggerStore } from "store";
const m = [1, 2, 3].map((k) => ({ time: k, value: k }));
debuggerStore.getState().init({ operators: [{ id: "a", type: "Add" }] }, [{ in: {}, out: { a: { o1: m } } }]);
debuggerStore.getState().forward();
same(debuggerStore.getState().columns[1], ["0", "(1, 1), (2, 2), (3, 3)"]);
''')),
    dict(id="cli-time-rounded-first", property="C28",
         edits=[(DEBUG, "            const time = Math.round(scaleTimeFactor * parseFloat(t));\n", "            const time = scaleTimeFactor * Math.round(parseFloat(t));\n")],
         needs="times with a fraction and a factor for them",
         breaks="the fraction is lost before the time is scaled",
         **js('''import { registerDebug } from "debug";
import { Command } from "commander";
import { writeFileSync, readFileSync } from "fs";
writeFileSync("p.json", JSON.stringify({ operators: [], connections: [], entryOperator: "in" }));
writeFileSync("d.csv", "time,v\\n1.25,7\\n2.5,8\\n");
const program = new Command();
registerDebug(program);
program.parseAsync(["node", "rtbot", "debug", "p.json", "d.csv", "-st", "1000", "-o", "out.json"]).then(() =>
  same(JSON.parse(readFileSync("out.json")).map((r) => r.in.i1[0].time), [1250, 2500]));
''')),
    dict(id="cli-header-row", property="C28",
         edits=[(DEBUG, "      const preparedData = data!.data\n", "      const [head, ...others] = data!.data;\n      // the first row has the names of the columns\n      const rows = Number.isInteger(Number(head?.[0])) ? data!.data : others;\n      const preparedData = rows\n")],
         needs="a file without header whose first time is not an integer",
         breaks="the first row is taken for a header",
         **js('''import { registerDebug } from "debug";
import { Command } from "commander";
import { writeFileSync, readFileSync } from "fs";
writeFileSync("p.json", JSON.stringify({ operators: [], connections: [], entryOperator: "in" }));
writeFileSync("d.csv", "1.5,7\\n2.5,8\\n");
const program = new Command();
registerDebug(program);
program.parseAsync(["node", "rtbot", "debug", "p.json", "d.csv", "-st", "2", "-o", "out.json"]).then(() =>
  same(JSON.parse(readFileSync("out.json")).map((r) => r.in.i1[0].time), [3, 5]));
''')),
    dict(id="redis-forgets-kept", property="C29",
         edits=[("apps/redis-module/src/commands/rtbot_run.rs", "        registry.delete(&input_key, &output_key)?;\n", "        registry.delete_by_input_key(&input_key)?;\n")],
         needs="rtbot.run for a series that has a kept pipeline to another series already",
         breaks="the kept pipeline is forgotten when the run ends",
         **redis('{"id": 0, "redis": [["doc", "d", "{\\"title\\": \\"t\\", \\"entryNode\\": \\"n\\", \\"operators\\": [], \\"connections\\": []}"], ["ts.add", "a", "1", "5"], '
                 '["rtbot.xrun", "d", "a", "x"], ["rtbot.run", "d", "a", "y"], ["ts.add", "a", "2", "6"], ["look"]]}\n',
                 'import json, sys\nr = json.loads(open(sys.argv[1]).readline())["res"]\ns = dict(r[-1]["series"])\n'
                 'if s["x"] != [[1, 5.0], [2, 11.0]]:\n    print("FAILED:", s)\n    sys.exit(1)\n')),
    dict(id="connection-without-to", property="C27",
         edits=[("tools/generator/templates/jsonschema.hbs", '        "required": ["from", "to"],\n', '        "required": ["from"],\n')],
         needs="a program with a connection that leads nowhere",
         breaks="the published schema accepts it",
         sh='#!/bin/bash\n# run with the tree of rtbot as working directory; exit 0 when the behaviour is right\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/veriftools/pyvenv/bin/python3 -B "$here/demo.py"\n',
         files={"demo.py": 'import json, re, sys\nimport jsonschema\nt = open("tools/generator/templates/jsonschema.hbs").read()\n'
                't = re.sub(r"\\{\\{#each schemas.*?\\{\\{/each\\}\\}", \'{"type": "object", "properties": {"id": {"type": "string"}}}\', t, flags=re.S)\n'
                'v = jsonschema.Draft7Validator(json.loads(t))\nprog = lambda c: {"operators": [{"id": "a"}], "connections": [c], "entryOperator": "a", "apiVersion": "v1"}\n'
                'ok = [v.is_valid(prog(c)) for c in ({"from": "a", "to": "a"}, {"from": "a"}, {"to": "a"}, {"from": "a", "to": "a", "x": 1})]\n'
                'if ok != [True, False, False, False]:\n    print("FAILED", ok)\n    sys.exit(1)\n'}),
    dict(id="server-one-leaves", property="C30",
         edits=[(SRV + "main.rs", "                    disconnected_clients.push(id.to_string());\n", "                    // the list of clients has changed\n                    disconnected_clients = vec![id.to_string()];\n                    break;\n")],
         needs="a client that has left while others are there: the second result after that",
         breaks="the clients that come after it in the map do not get that result",
         **srv([["connect"], ["connect"], ["connect"], ["connect"], ["pub", "1,5"], ["settle"], ["leave", 1], ["pub", "2,6"], ["settle"], ["pub", "3,7"], ["settle"], ["pub", "4,7"], ["settle"], ["look"]],
               "got = [[json.loads(m)['timestamp'] for m in c] for c in r[-1]['got'][1:]]\nif got != [[1, 2, 3, 4]] * 3:\n    print('FAILED', got)\n    sys.exit(1)", 12)),
    dict(id="server-waits-for-client", property="C30",
         edits=[(SRV + "ws_client.rs", "    sender: mpsc::UnboundedSender<ClientMessage>,\n", "    sender: mpsc::Sender<ClientMessage>,\n"),
                (SRV + "ws_client.rs", "use tokio::sync::mpsc::UnboundedReceiver;\n", "use tokio::sync::mpsc::Receiver;\n"),
                (SRV + "ws_client.rs", "struct Client {\n    receiver: UnboundedReceiver<ClientMessage>,\n", "struct Client {\n    receiver: Receiver<ClientMessage>,\n"),
                (SRV + "ws_client.rs", "    fn new(\n        receiver: UnboundedReceiver<ClientMessage>,\n", "    fn new(\n        receiver: Receiver<ClientMessage>,\n"),
                (SRV + "ws_client.rs", "mpsc::unbounded_channel();\n", "mpsc::channel(2);\n"),
                (SRV + "ws_client.rs", "    pub fn send(&self, msg: ClientMessage) -> Result<(), SendError<ClientMessage>> {\n        self.sender.send(msg)\n",
                 "    pub async fn send(&self, msg: ClientMessage) -> Result<(), SendError<ClientMessage>> {\n        self.sender.send(msg).await\n"),
                (SRV + "main.rs", "                    values,\n                }) {\n", "                    values,\n                }).await {\n")],
         needs="a client that takes nothing while several results are published",
         breaks="the others wait for it",
         **srv([["connect"], ["connect"], ["stall", 1]] + [["pub", "%d,5" % k] for k in range(1, 7)] + [["settle"], ["look"]],
               "got = len(r[-1]['got'][1])\nif got != 6:\n    print('FAILED', got)\n    sys.exit(1)", 2)),
]
