"""Bugs at sizes, names and values nobody samples, third round."""
import importlib.util, os
spec = importlib.util.spec_from_file_location("deep", os.path.dirname(os.path.abspath(__file__)) + "/deep.py")
deep = importlib.util.module_from_spec(spec)
spec.loader.exec_module(deep)
CORE, STD, API, SINGLE, main, HAND, around = deep.CORE, deep.STD, deep.API, deep.SINGLE, deep.main, deep.HAND, deep.around
FIN = "libs/finance/include/rtbot/finance/"

BUGS = [
    dict(id="buffer-thousand", property="C13",
         edits=[(API + "include/rtbot/FactoryOp.h", "    this->messageBuffer[apId][portId].push_back(msg);\n    return true;\n",
                 "    auto& waiting = this->messageBuffer[apId][portId];\n    // keep the memory bounded\n    if (waiting.size() == 1024) return false;\n    waiting.push_back(msg);\n    return true;\n")],
         needs="more than 1024 messages of a port in the buffer",
         breaks="the others are lost",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"Count","id":"op"}],"connections":[],"output":{"op":["o1"]}})");
  for (int t = 1; t <= 1100; t++) f.addToMessageBuffer("p", "i1", M(t, 1));
  auto r = f.processMessageBuffer("p");
  expect(r["op"]["o1"].size() == 1100, "every message of the buffer");''')),
    dict(id="registry-names-case", property="C19",
         edits=[(API + "include/rtbot/FactoryOp.h", "  map<string, Program> programs;\n",
                 "  struct ByName {\n    bool operator()(string const& a, string const& b) const { return strcasecmp(a.c_str(), b.c_str()) < 0; }\n  };\n  map<string, Program, ByName> programs;\n"),
                (API + "include/rtbot/FactoryOp.h", "#include <string>\n", "#include <string>\n#include <strings.h>\n")],
         needs="two programs whose ids differ in case only",
         breaks="they are taken for the same",
         cpp=main('''  FactoryOp f;
  string p = R"({"entryOperator":"op","operators":[{"type":"Count","id":"op"}],"connections":[],"output":{"op":["o1"]}})";
  f.createProgram("a", p);
  same(show(f.processMessageMap("A", {{"i1", {M(1, 1)}}})), "");
  f.createProgram("A", p);
  f.processMessageMap("a", {{"i1", {M(1, 1)}}});
  same(show(f.processMessageMap("A", {{"i1", {M(2, 1)}}})), "op.o1 2:1;");''')),
    dict(id="greater-stream-nearly", property="C03",
         edits=[(STD + "GreaterThanStream.h", "if (a > b) return a;", "if (a - b > 1e-9) return a;")],
         needs="two values that differ by less than a billionth",
         breaks="the greater one is not emitted",
         cpp=main(SINGLE % '{"type":"GreaterThanStream","id":"op"}' + '''  send("i1", 1, 1.0 + 1.0 / (1ull << 40));
  expect(send("i2", 1, 1.0).find("op.o1 1:") == 0, "a little greater");''')),
    dict(id="equal-nearly", property="C08",
         edits=[(STD + "EqualTo.h", "return number == value;", "return number - value < 1e-9 && value - number < 1e-9;")],
         needs="a value that differs by less than a billionth",
         breaks="it is taken for equal",
         cpp=main(SINGLE % '{"type":"EqualTo","id":"op","value":1}' + '''  same(send("i1", 1, 1.0 + 1.0 / (1ull << 40)), "");
  same(send("i1", 2, 1), "op.o1 2:1;");''')),
    dict(id="autoregressive-sixteen", property="C07",
         edits=[(STD + "AutoRegressive.h", 'this->addDataInput("i1", this->coeff.size());', 'this->addDataInput("i1", this->coeff.size() < 16 ? this->coeff.size() : 16);')],
         needs="more than 16 coefficients",
         breaks="the others are ignored",
         cpp=main(SINGLE % '{"type":"AutoRegressive","id":"op","coeff":[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1]}' + '''  for (int t = 1; t <= 18; t++) send("i1", t, t == 1);
  same(send("i1", 19, 0), "op.o1 19:1;");''')),
    dict(id="response-thirty-two", property="C06",
         edits=[(STD + "FiniteImpulseResponse.h", "    for (int i = 0; i < size; i++) {", "    for (int i = max<int>(0, (int)size - 32); i < size; i++) {")],
         needs="more than 32 coefficients",
         breaks="the first coefficients, those of the newest messages, are left out",
         cpp=main('''  FactoryOp f;
  string c = "1";
  for (int k = 1; k < 40; k++) c += ",0";
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"FiniteImpulseResponse","id":"op","coeff":[)" + c + R"(]}],"connections":[],"output":{"op":["o1"]}})");
  string r;
  for (int t = 1; t <= 40; t++) r = show(f.processMessageMap("p", {{"i1", {M(t, t)}}}));
  same(r, "op.o1 40:40;");''')),
    dict(id="function-many-points", property="C08",
         edits=[(STD + "Function.h", "    size_t i = 0;\n    while", "    // skip the first half of long tables\n    size_t i = points.size() > 16 && points[points.size() / 2 - 1].first <= x ? points.size() / 2 : 0;\n    while")],
         needs="a table of more than 16 points and a value in the middle one of its intervals",
         breaks="the next interval is extrapolated backwards",
         cpp=main('''  FactoryOp f;
  string c = "[0,0]";
  for (int k = 1; k < 20; k++) c += ",[" + to_string(k) + "," + to_string(k * k) + "]";
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"Function","id":"op","points":[)" + c + R"(]}],"connections":[],"output":{"op":["o1"]}})");
  for (int k = 0; k < 19; k++) {
    auto r = f.processMessageMap("p", {{"i1", {M(k + 1, k + 0.5)}}});
    expect(r["op"]["o1"].at(0).value == k * k + (2 * k + 1) / 2.0, "half way between two points");
  }''')),
    dict(id="cli-shorter-result", property="C26",
         edits=[(around.STORE, "maxIteration: result.length })", "maxIteration: Math.max(get().maxIteration, result.length) })")],
         needs="a second result that is shorter than the first",
         breaks="the iteration runs past its end",
         **around.js('''import { debuggerStore } from "store";
const p = { operators: [{ id: "a", type: "Add" }] };
const r = (n) => [...Array(n).keys()].map((k) => ({ in: {}, out: { a: { o1: [{ time: k, value: k }] } } }));
debuggerStore.getState().init(p, r(3));
debuggerStore.getState().init(p, r(1));
debuggerStore.getState().forward();
debuggerStore.getState().forward();
same(debuggerStore.getState().iteration, 1);
same(debuggerStore.getState().columns, [["iter", "a"], ["0", "(0, 0)"]]);
''')),
    dict(id="filter-port-prefix", property="C14",
         edits=[(API + "include/rtbot/Program.h", '''          if (outResults.count(op->second.at(i)) > 0) {
            // a port that is listed twice is still returned once
            toReturn[op->first][op->second.at(i)] = outResults.at(op->second.at(i));
          }
''', '''          auto const& wanted = op->second.at(i);
          // a port that is listed twice is still returned once
          for (auto it = outResults.lower_bound(wanted); it != outResults.end() && it->first.compare(0, wanted.size(), wanted) == 0; ++it)
            toReturn[op->first][it->first] = it->second;
''')],
         needs="a selected port whose name is the start of another one (o1 and o10)",
         breaks="both are returned",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"Input","id":"op","numPorts":12}],"connections":[],"output":{"op":["o1"]}})");
  same(show(f.processMessageMap("p", {{"i11", {M(1, 1)}}})), "");
  same(show(f.processMessageMap("p", {{"i1", {M(1, 1)}}})), "op.o1 1:1;");''')),
    dict(id="rsi-first-window", property="C22",
         edits=[(FIN + "RelativeStrengthIndex.h", "      for (size_t i = 1; i < n; i++) {", "      for (size_t i = n > 30 ? n - 29 : 1; i < n; i++) {")],
         needs="n of 30 or more",
         breaks="the first averages leave out the oldest differences",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"RelativeStrengthIndex","id":"op","n":32}],"connections":[],"output":{"op":["o1"]}})");
  ProgramMessage<uint64_t, double> r;
  for (int t = 1; t <= 33; t++) r = f.processMessageMap("p", {{"i1", {M(t, t == 1 ? 10 : t == 2 ? 5 : 3 + t)}}});
  // gains: 31 of 1 (and one more at the start), loss: 5
  double g = 0, l = 0, last = 10;
  for (int t = 2; t <= 33; t++) { double v = t == 2 ? 5 : 3 + t; if (v > last) g += v - last; else l += last - v; last = v; }
  expect(fabs(r["op"]["o1"].at(0).value - (100 - 100 / (1 + g / l))) < 1e-9, "every difference counts");''')),
    dict(id="cli-value-empty", property="C28",
         edits=[(around.DEBUG, "const value = scaleValueFactor * parseFloat(v);", "const value = scaleValueFactor * Number(v);")],
         needs="a row whose value is empty",
         breaks="it is sent as 0",
         **around.js('''import { registerDebug } from "debug";
import { Command } from "commander";
import { writeFileSync, readFileSync } from "fs";
writeFileSync("p.json", JSON.stringify({ operators: [], connections: [], entryOperator: "in" }));
writeFileSync("d.csv", "1,7\\n2,\\n3,8");
const program = new Command();
registerDebug(program);
program.parseAsync(["node", "rtbot", "debug", "p.json", "d.csv", "-o", "out.json"]).then(() =>
  same(JSON.parse(readFileSync("out.json")).map((r) => r.in.i1[0].time), [1, 3]));
''')),
    dict(id="pipeline-eleven-inputs", property="C17",
         edits=[(API + "include/rtbot/Pipeline.h", "    inputs.at(inputPort)->receiveData(msg, port);\n    this->toProcess.insert(inputPort);",
                 "    inputs.at(inputPort)->receiveData(msg, port);\n    // one of the ports of an operator is enough to execute it\n    if (auto it = this->toProcess.lower_bound(id); it == this->toProcess.end() || it->compare(0, id.size(), id) != 0) this->toProcess.insert(inputPort);")],
         needs="a pipeline with two inner entry operators, the id of one being the start of the other's, fed in the same reception",
         breaks="the second is not executed",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"q","prog":{"operators":[{"type":"Count","id":"ab"},{"type":"Count","id":"a"}],"connections":[]}}],
    "connections":[{"from":"in","to":"q","toPort":"i2"},{"from":"in","to":"q","toPort":"i1"}],"output":{"q":["o1","o2"]}})");
  auto r = f.processMessageMap("p", {{"i1", {M(1, 1)}}});
  expect(r["q"].count("o1") == 1 && r["q"].count("o2") == 1, "both operators inside are executed");''')),
]
