"""Bugs that need queues far apart, many rows or keys, or names left out."""
import importlib.util, os
spec = importlib.util.spec_from_file_location("deep", os.path.dirname(os.path.abspath(__file__)) + "/deep.py")
deep = importlib.util.module_from_spec(spec)
spec.loader.exec_module(deep)
CORE, STD, API, SINGLE, main, HAND, around = deep.CORE, deep.STD, deep.API, deep.SINGLE, deep.main, deep.HAND, deep.around
XRUN, RUN = "apps/redis-module/src/commands/rtbot_xrun.rs", "apps/redis-module/src/commands/rtbot_run.rs"
DOC = '{\\"title\\": \\"t\\", \\"entryNode\\": \\"n\\", \\"operators\\": [], \\"connections\\": []}'

BUGS = [
    dict(id="variable-definitions-bounded", property="C05",
         edits=[(STD + "Variable.h", '    this->addDataInput("i1");\n', '    // the newest definitions are enough\n    this->addDataInput("i1", 256);\n')],
         needs="more than 256 definitions before a query for one of the first of them",
         breaks="the definition is not there any more",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Variable","id":"v","value":7}],"connections":[
    {"from":"in","fromPort":"o1","to":"v","toPort":"i1"},{"from":"in","fromPort":"o2","to":"v","toPort":"c1"}],"output":{"v":["o1"]}})");
  for (int t = 1; t <= 600; t++) f.processMessageMap("p", {{"i1", {M(2 * t, t)}}});
  same(show(f.processMessageMap("p", {{"i2", {M(5, 0)}}})), "v.o1 5:2;");''')),
    dict(id="demux-data-bounded", property="C04",
         edits=[(CORE + "Demultiplexer.h", "      this->dataInputs.find(inputPort)->second.push_back(msg);\n",
                 "      auto &waiting = this->dataInputs.find(inputPort)->second;\n      if (waiting.size() == 128) {\n        waiting.setSum(waiting.getSum() - waiting.front().value);\n        waiting.pop_front();\n      }\n      waiting.push_back(msg);\n")],
         needs="more than 128 data messages before the controls of the first of them",
         breaks="the first data messages are lost",
         cpp=main(HAND + '''  auto d = op(R"({"type":"Demultiplexer","id":"d"})");
  for (int t = 1; t <= 200; t++) d->receiveData(M(t, t), "i1");
  d->receiveControl(M(1, 1), "c1");
  same(show(d->executeControl()), "d.o1 1:1;");''')),
    dict(id="pipeline-omitted-output", property="C17", also=["C20"],
         edits=[(API + "src/Pipeline.cpp", '''        if (op1->outputIds.size()==1)
            used_output.emplace(x.from+":"+ *op1->outputIds.begin());
        else
            used_output.emplace(x.from+":"+x.fromPort);
''', '''        used_output.emplace(x.from+":"+x.fromPort);
''')],
         needs="a connection inside a pipeline that omits the output port",
         breaks="the port that is connected becomes an output of the pipeline too",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"q","prog":{"operators":[{"type":"Identity","id":"a"},{"type":"Count","id":"b"}],
    "connections":[{"from":"a","to":"b"}]}}],"connections":[{"from":"in","to":"q","toPort":"i1"}],"output":{"q":["o1","o2"]}})");
  same(show(f.processMessageMap("p", {{"i1", {M(5, 9)}}})), "q.o1 5:1;");''')),
    dict(id="redis-value-short", property="C29",
         edits=[(XRUN, "            s.parse::<f64>().unwrap()\n", "            f64::from(s.parse::<f32>().unwrap())\n")],
         needs="a sample that single precision does not hold, in a series with a kept pipeline",
         breaks="the value is rounded before it goes through the pipeline",
         **around.redis('{"id": 0, "redis": [["doc", "d", "%s"], ["ts.add", "a", "1", "5"], ["rtbot.xrun", "d", "a", "x"], ["ts.add", "a", "2", "16777217"], ["look"]]}\n' % DOC,
                        'import json, sys\nr = json.loads(open(sys.argv[1]).readline())["res"]\ns = dict(r[-1]["series"])\n'
                        'if s["x"] != [[1, 5.0], [2, 16777222.0]]:\n    print("FAILED:", s)\n    sys.exit(1)\n')),
    dict(id="redis-range-counted", property="C29",
         edits=[(RUN, '''&[input_key.to_string().as_str(), "-", "+"])''', '''&[input_key.to_string().as_str(), "-", "+", "COUNT", "1000"])''')],
         needs="a series with more than a thousand samples before rtbot.run",
         breaks="only the first thousand go through the pipeline",
         **around.redis('{"id": 0, "redis": [["doc", "d", "%s"], %s["rtbot.run", "d", "a", "x"], ["look"]]}\n' % (DOC, "".join('["ts.add", "a", "%d", "1"], ' % t for t in range(1, 1101))),
                        'import json, sys\nr = json.loads(open(sys.argv[1]).readline())["res"]\ns = dict(r[-1]["series"])\n'
                        'if len(s["x"]) != 1100:\n    print("FAILED:", len(s["x"]))\n    sys.exit(1)\n')),
    dict(id="rust-third-output", property="C25",
         edits=[("apps/rtbot-rs/src/pipelines_registry.rs", "            for (output_key, pipeline_id) in outputs {\n", "            // the newest ones\n            for (output_key, pipeline_id) in outputs.iter().rev().take(2) {\n")],
         needs="three pipelines of the same input key",
         breaks="a message reaches two of them only",
         **around.rs('''    let r = PipelinesRegistry::new();
    for k in ["x", "y", "z"] {
        r.create("p", "a", k).unwrap();
    }
    expect(r.receive("a", 1, vec![1.0]).unwrap().len() == 3, "three answers");''')),
    dict(id="cli-many-rows", property="C28",
         edits=[(around.DEBUG, "        .filter((r) => r.length === 2);", "        .filter((r, k) => r.length === 2 && (k < 256 || k % 256 !== 0));")],
         needs="a file of more than 256 rows",
         breaks="a row is left out",
         **around.js('''import { registerDebug } from "debug";
import { Command } from "commander";
import { writeFileSync, readFileSync } from "fs";
writeFileSync("p.json", JSON.stringify({ operators: [], connections: [], entryOperator: "in" }));
writeFileSync("d.csv", [...Array(300).keys()].map((k) => `${k + 1},7`).join("\\n"));
const program = new Command();
registerDebug(program);
program.parseAsync(["node", "rtbot", "debug", "p.json", "d.csv", "-o", "out.json"]).then(() =>
  same(JSON.parse(readFileSync("out.json")).length, 300));
''')),
    dict(id="py-diagram-prefix", property="C23",
         edits=[(around.RTPY, '''            toOp = next((x for x in self.operators if x["id"] == con["to"]), None)''', '''            toOp = next((x for x in self.operators if x["id"].startswith(con["to"])), None)''')],
         needs="an operator whose id starts with the id of a later one to which something is connected",
         breaks="the arrow shows the type of the other operator",
         **around.py('''p = rtbot.Program([{"id": "in", "type": "Input"}, {"id": "ab", "type": "Add", "value": 1}, {"id": "a", "type": "Count"}], [{"from": "in", "to": "a", "fromPort": "o1", "toPort": "i1"}], "in")
same("Count" in p.toMermaidJs() and "Add" not in p.toMermaidJs(), True)
''')),
    dict(id="server-payload-values", property="C30",
         edits=[(around.SRV + "pull_redis_service.rs", '                .split(",")\n', '                .splitn(2, ",")\n')],
         needs="a result with more than one value",
         breaks="its values arrive as one",
         **around.srv([["connect"], ["pub", "1,5,6"], ["settle"], ["look"]],
                      "got = [json.loads(m)['values'] for m in r[-1]['got'][0]]\nif got != [['5', '6']]:\n    print('FAILED', got)\n    sys.exit(1)", 1)),
]
