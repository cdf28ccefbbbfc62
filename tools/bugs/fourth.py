"""Bugs in names, widths and errors, fourth round."""
import importlib.util, os
spec = importlib.util.spec_from_file_location("deep", os.path.dirname(os.path.abspath(__file__)) + "/deep.py")
deep = importlib.util.module_from_spec(spec)
spec.loader.exec_module(deep)
CORE, STD, API, SINGLE, main, HAND, around = deep.CORE, deep.STD, deep.API, deep.SINGLE, deep.main, deep.HAND, deep.around
REG = "apps/rtbot-rs/src/pipelines_registry.rs"

BUGS = [
    dict(id="demux-nearly-one", property="C04",
         edits=[(CORE + "Demultiplexer.h", "(it->second.front().value == 1 || it->second.front().value == 0))", "(it->second.front().value > 0.999 || it->second.front().value == 0))"),
                (CORE + "Demultiplexer.h", "        if (it->second.front().value == 1) {", "        if (it->second.front().value > 0.999 && it->second.front().value < 1.001) {")],
         needs="an instruction that is one only nearly",
         breaks="it is followed instead of refused",
         cpp=main(HAND + '''  auto d = op(R"({"type":"Demultiplexer","id":"d"})");
  d->receiveControl(M(1, 1.0 + 1.0 / (1ull << 40)), "c1");
  d->receiveData(M(1, 5), "i1");
  bool refused = false;
  try { d->executeData(); } catch (exception const&) { refused = true; }
  expect(refused, "an instruction is one or zero");''')),
    dict(id="average-window-int", property="C21",
         edits=[(API + "src/FactoryOp.cpp", "const MovingAverage<T, V>& p) {\n  j = json{{\"type\", p.typeName()}, {\"id\", p.id}, {\"n\", p.getDataInputMaxSize()}};",
                 "const MovingAverage<T, V>& p) {\n  j = json{{\"type\", p.typeName()}, {\"id\", p.id}, {\"n\", (int)p.getDataInputMaxSize()}};")],
         needs="a window of 2^31 messages or more",
         breaks="it is written as another one",
         cpp=main('''  auto op = FactoryOp::readOp(R"({"type":"MovingAverage","id":"m","n":4294967299})");
  auto j = nlohmann::json::parse(FactoryOp::writeOp(op));
  expect(j["n"] == 4294967299ull, "the window that was asked for");''')),
    dict(id="message-time-short", property="C15",
         edits=[(CORE + "Message.h", "                 reinterpret_cast<const char*>(&time) + sizeof(time));", "                 reinterpret_cast<const char*>(&time) + 7);"),
                (CORE + "Message.h", "    time = *reinterpret_cast<const T*>(&(*it));\n    it += sizeof(time);", "    time = *reinterpret_cast<const T*>(&(*it)) & 0xffffffffffffff;\n    it += 7;")],
         needs="messages kept at times of 2^56 or more (nanoseconds) when it is saved",
         breaks="they come back at another time",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Minus","id":"m"}],"connections":[
    {"from":"in","fromPort":"o1","to":"m","toPort":"i1"},{"from":"in","fromPort":"o2","to":"m","toPort":"i2"}],"output":{"m":["o1"]}})");
  uint64_t t = 1700000000000000001ull;
  f.processMessageMap("p", {{"i1", {M(t, 5)}}});
  f.createProgram("q", f.serialize("p"));
  same(show(f.processMessageMap("q", {{"i2", {M(t, 3)}}})), "m.o1 1700000000000000001:2;");''')),
    dict(id="rust-keys-case", property="C25",
         edits=[(REG, "            outputs.insert(output_key.to_string(), id.to_string());", "            outputs.insert(output_key.to_lowercase(), id.to_string());"),
                (REG, "                if let Some(pipeline_id) = outputs.get(output_key) {", "                if let Some(pipeline_id) = outputs.get(&output_key.to_lowercase()) {"),
                (REG, "            if let Some(pipeline_id) = outputs.remove(output_key) {", "            if let Some(pipeline_id) = outputs.remove(&output_key.to_lowercase()) {")],
         needs="output keys with capitals",
         breaks="results arrive under another key",
         **around.rs('''    let r = PipelinesRegistry::new();
    r.create("p", "a", "Out").unwrap();
    expect(r.create("p", "a", "out").is_ok(), "another key");
    let got = r.receive("a", 1, vec![1.0]).unwrap();
    expect(got.contains_key("Out") && got.contains_key("out"), "the keys as given");''')),
    dict(id="pipeline-ten-outputs", property="C17", also=["C12"],
         edits=[(API + "include/rtbot/Pipeline.h", "        if (auto it = outputs.find(id + \":\" + port); it != outputs.end()) output.emplace(portsMap.at(it->first), value);",
                 "        if (auto it = outputs.find(id + \":\" + port); it != outputs.end()) output.emplace(this->getOutputs().at(distance(outputs.begin(), it)), value);")],
         needs="a pipeline with ten or more outputs",
         breaks="from the second on they leave through other ports",
         cpp=main('''  FactoryOp f;
  string ops, sep;
  for (int k = 0; k < 11; k++) { ops += sep + R"({"type":"Add","id":"a)" + string(1, 'a' + k) + R"(","value":)" + to_string(k) + "}"; sep = ","; }
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"q","prog":{"operators":[)" + ops + R"(],"connections":[]}}],
    "connections":[{"from":"in","to":"q","toPort":"i2"}],"output":{"q":["o2","o3"]}})");
  same(show(f.processMessageMap("p", {{"i1", {M(1, 1)}}})), "q.o2 1:2;");''')),
    dict(id="pipeline-bad-connection", property="C20",
         edits=[(API + "src/Pipeline.cpp", '''            throw std::runtime_error("Couldn't connect " + x.from + " to " + x.to + " from output port " + x.fromPort +
                                     " to input port " + x.toPort);''', '''            continue;''')],
         needs="a pipeline with a connection to a port that does not exist",
         breaks="the program is created without the connection",
         cpp=main('''  FactoryOp f;
  string r = "thrown";
  try {
    r = f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"q","prog":{"operators":[{"type":"Count","id":"a"},{"type":"Count","id":"b"}],
    "connections":[{"from":"a","to":"b","toPort":"i2"}]}}],"connections":[{"from":"in","to":"q","toPort":"i1"}],"output":{"q":["o1"]}})");
  } catch (exception const&) {}
  expect(r != "", "not created");''')),
    dict(id="cli-nine-ports", property="C26",
         edits=[(around.STORE, "      const operators = state.operators.filter((op) => op.selected);", "      const operators = state.operators.filter((op) => op.selected).map((op) => ({ ...op, ports: [...op.ports].sort() }));")],
         needs="an operator with ten or more ports",
         breaks="its columns come in another order than the ports have",
         **around.js('''import { debuggerStore } from "store";
debuggerStore.getState().init({ operators: [{ id: "a", type: "Join", numPorts: 11 }] }, []);
same(debuggerStore.getState().columns[0].slice(0, 4), ["iter", "a:o1", "a:o2", "a:o3"]);
''')),
    dict(id="composite-port-guess", property="C18",
         edits=[(CORE + "Composite.h", "    auto childptr = op.get()->connect(child.get(), outputPort, inputPort);", "    // most have one input\n    auto childptr = op.get()->connect(child.get(), outputPort, child.get()->getNumDataInputs() == 1 ? string() : inputPort);")],
         needs="an internal connection to the control port of an operator with one data port, or to a port that does not exist",
         breaks="it is refused or made to another port",
         src="", cpp='''#include "rtbot/Composite.h"
''' + main('''  Composite<uint64_t, double> c("c");
  c.createInput("in", 1); c.createAdd("d", 1); c.createOutput("out", 1);
  bool refused = false;
  try { c.createInternalConnection("in", "d", "o1", "i7"); } catch (exception const&) { refused = true; }
  expect(refused, "there is no such port");
  Composite<uint64_t, double> e("e");
  e.createInput("in", 2); e.createDemultiplexer("d", 1); e.createOutput("out", 1);
  bool made = true;
  try { e.createInternalConnection("in", "d", "o1", "i1"); e.createInternalConnection("in", "d", "o2", "c1"); } catch (exception const&) { made = false; }
  expect(made, "the control port is connected");''')),
]
