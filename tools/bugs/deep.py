"""Bugs that need long, large or unusual inputs."""
import importlib.util, os
spec = importlib.util.spec_from_file_location("core", os.path.dirname(os.path.abspath(__file__)) + "/core.py")
core = importlib.util.module_from_spec(spec)
spec.loader.exec_module(core)
CORE, STD, API, JOIN2, SINGLE, main, HAND = core.CORE, core.STD, core.API, core.JOIN2, core.SINGLE, core.main, core.HAND
spec = importlib.util.spec_from_file_location("around", os.path.dirname(os.path.abspath(__file__)) + "/around.py")
around = importlib.util.module_from_spec(spec)
spec.loader.exec_module(around)
FIN = "libs/finance/include/rtbot/finance/"

BUGS = [
    dict(id="demux-ports-counted", property="C04",
         edits=[(CORE + "Demultiplexer.h", "          outputMsgs.emplace(this->controlMap.find(it->first)->second, v);",
                 "          outputMsgs.emplace(\"o\" + to_string(distance(this->controlInputs.begin(), it) + 1), v);")],
         needs="a Demultiplexer with ten or more control ports",
         breaks="the output port is counted in the order in which the control ports are kept (c1, c10, c2, ...), so messages leave through another port",
         cpp=main(HAND + '''  auto d = op(R"({"type":"Demultiplexer","id":"d","numPorts":11})");
  for (int k = 1; k <= 11; k++) d->receiveControl(M(1, k == 10), "c" + to_string(k));
  same(send(d, "i1", 1, 5), "d.o10 1:5;");''')),
    dict(id="deviation-one-pass", property="C06",
         edits=[(STD + "StandardDeviation.h", "      std = std + pow(this->getDataInputMessage(inputPort, j).value - average, 2);", "      std = std + pow(this->getDataInputMessage(inputPort, j).value, 2);"),
                (STD + "StandardDeviation.h", "    std = sqrt(std / (size - 1));", "    // the mean of the squares less the square of the mean\n    std = sqrt(max((V)0, std - size * average * average) / (size - 1));")],
         needs="values that differ by little compared with their size",
         breaks="the digits cancel out, so the deviation is far off for close, large values",
         cpp=main(SINGLE % '{"type":"StandardDeviation","id":"op","n":3}' + '''  send("i1", 1, 4194304.0009765625); send("i1", 2, 4194304.0009765625);
  same(send("i1", 3, 4194304.0009765625), "op.o1 3:0;");
  send("i1", 4, 4194305.0009765625);
  string r = send("i1", 5, 4194306.0009765625);
  expect(fabs(atof(r.c_str() + r.find(":") + 1) - 1) < 1e-9, r.c_str());''')),
    dict(id="constant-gap-limited", property="C09",
         edits=[(STD + "ConstantResampler.h", "    while (nextEmit < msg.time) {", "    // a gap like this is no gap any more\n    while (nextEmit < msg.time && toEmit.size() < 4096) {")],
         needs="two messages more than 4096 intervals apart",
         breaks="only 4096 grid points are emitted, the others are late and with a later value",
         cpp=main(SINGLE % '{"type":"ConstantResampler","id":"op","interval":2}' + '''  send("i1", 10, 3);
  string r = send("i1", 10 + 2 * 5000, 4);
  expect(r.find(" 10008:3") != string::npos, "the last point of the gap");
  expect(r.find(" 10010:4") != string::npos, "the message itself is on the grid");''')),
    dict(id="composite-difference-newest", property="C18",
         edits=[(CORE + "Composite.h", "make_shared<Difference<T, V>>(id, useOldestTime)", "make_shared<Difference<T, V>>(id)")],
         needs="a Difference of a composite that takes the other of the two times",
         breaks="the choice is ignored",
         src="", cpp='''#include "rtbot/Composite.h"
''' + main('''  Composite<uint64_t, double> c("c");
  c.createInput("in", 1); c.createDifference("d", false); c.createOutput("out", 1);
  c.createInternalConnection("in", "d"); c.createInternalConnection("d", "out");
  c.receiveData(M(20, 1), "i1"); c.executeData();
  c.receiveData(M(25, 4), "i1");
  auto r = c.executeData();
  expect(r["d"]["o1"].size() == 1 && r["d"]["o1"][0].time == 20 && r["d"]["o1"][0].value == 3, "at the time of the older one");''')),
    dict(id="count-saved-short", property="C15", also=["C16"],
         edits=[(STD + "Count.h", """    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&count),
                 reinterpret_cast<const unsigned char *>(&count) + sizeof(count));
""", """    for (int b = 0; b < 8; b++) bytes.push_back((b & 1 ? 0 : count >> (4 * b)) & 255);
""")],
         needs="a Count saved after 256 messages",
         breaks="the higher bytes of the count are not saved",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"Count","id":"op"}],"connections":[],"output":{"op":["o1"]}})");
  for (int t = 1; t <= 300; t++) f.processMessageMap("p", {{"i1", {M(t, 1)}}});
  f.createProgram("q", f.serialize("p"));
  same(show(f.processMessageMap("q", {{"i1", {M(301, 1)}}})), "op.o1 301:301;");''')),
    dict(id="rsi-small-loss", property="C22",
         edits=[(FIN + "RelativeStrengthIndex.h", "    if (averageLoss > 0) {", "    if (averageLoss > 1e-6) {")],
         needs="a long rise after a fall, so that the average loss has decayed",
         breaks="the index jumps to 100 while there is still a loss in the average",
         cpp=main(SINGLE % '{"type":"RelativeStrengthIndex","id":"op","n":2}' + '''  double v = 10, last = 0;
  send("i1", 1, 11); send("i1", 2, v);
  for (int t = 3; t < 40; t++) { v += 0.0000001; string r = send("i1", t, v); last = atof(r.c_str() + r.find(":") + 1); }
  expect(last < 100, "the loss is still there");''')),
    dict(id="variable-value-short", property="C21",
         edits=[(API + "src/FactoryOp.cpp", "  j = json{{\"type\", p.typeName()}, {\"id\", p.id}, {\"value\", p.getValue()}};\n}\n\ntemplate <class T, class V>\nvoid from_json(const json& j, Variable<T, V>& p) {",
                 "  j = json{{\"type\", p.typeName()}, {\"id\", p.id}, {\"value\", static_cast<float>(p.getValue())}};\n}\n\ntemplate <class T, class V>\nvoid from_json(const json& j, Variable<T, V>& p) {")],
         needs="a Variable whose default value single precision does not hold",
         breaks="the value in its json is rounded",
         cpp=main('''  auto op = FactoryOp::readOp(R"({"type":"Variable","id":"v","value":0.1})");
  auto j = nlohmann::json::parse(FactoryOp::writeOp(op));
  expect(j["value"].get<double>() == 0.1, "the value is the one given");''')),
    dict(id="join-time-double", property="C02", also=["C03"],
         edits=[(CORE + "Join.h", "    T latest = this->dataInputs.find(inputPort)->second.front().time;", "    V latest = this->dataInputs.find(inputPort)->second.front().time;")],
         needs="times in nanoseconds (beyond 2^53) on the ports of a Join that differ by little",
         breaks="the times are compared as floating point numbers, so the older of two is taken for the newest and waits for ever",
         cpp=main(JOIN2 % ("Join", ', "numPorts":2') + '''  uint64_t t = 1700000000000000000ull;
  send("i1", t, 1); send("i2", t + 1, 2);
  same(send("i1", t + 1, 3), "op.o1 1700000000000000001:3;");''')),
    dict(id="input-saves-silent", property="C15",
         edits=[(CORE + "Input.h", "    size_t lastSentSize = this->lastSent.size();\n    bytes", "    size_t lastSentSize = this->portsMap.size();\n    bytes"),
                (CORE + "Input.h", "    for (const auto &[port, msg] : this->lastSent) {\n      // Serialize the size of the port word",
                 "    for (const auto &[port, output] : this->portsMap) {\n      auto last = this->lastSent.find(port);\n      Message<T, V> msg = last == this->lastSent.end() ? Message<T, V>(0, 0) : last->second;\n      // Serialize the size of the port word")],
         needs="saving before a port has had a message, and a first message at time 0 after that",
         breaks="the restored input believes that it has sent a message at time 0 and drops it",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"Input","id":"op","numPorts":2}],"connections":[],"output":{"op":["o1","o2"]}})");
  f.processMessageMap("p", {{"i1", {M(0, 1)}}});
  f.createProgram("q", f.serialize("p"));
  same(show(f.processMessageMap("q", {{"i2", {M(0, 1)}}})), "op.o2 0:1;");''')),
    dict(id="cosine-carry-short", property="C15", also=["C16"],
         edits=[(STD + "CosineResampler.h", "    carryOver = *reinterpret_cast<const T *>(&(*it));", "    carryOver = *reinterpret_cast<const uint32_t *>(&(*it));")],
         needs="a CosineResampler saved between grid points that are more than 2^32 apart",
         breaks="the distance to the last grid point is cut to 32 bits, the grid shifts",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[{"type":"CosineResampler","id":"op","dt":10000000000}],"connections":[],"output":{"op":["o1"]}})");
  f.processMessageMap("p", {{"i1", {M(1, 1)}}});
  f.processMessageMap("p", {{"i1", {M(6000000001, 1)}}});
  f.createProgram("q", f.serialize("p"));
  same(show(f.processMessageMap("q", {{"i1", {M(12000000001, 1)}}})), "op.o1 10000000001:1;");''')),
    dict(id="output-ports-counted", property="C01",
         edits=[(CORE + "Input.h", "          outputMsgs.emplace(portsMap.find(inputPort)->second, v);\n          this->lastSent.erase(inputPort);",
                 "          outputMsgs.emplace(string(\"o\") + inputPort.back(), v);\n          this->lastSent.erase(inputPort);")],
         needs="an Input with ten or more ports, and a second message on a port with two digits",
         breaks="the message leaves through the port with the last digit only",
         cpp=main(SINGLE.replace('"output":{"op":["o1"]}', '"output":{}') % '{"type":"Input","id":"op","numPorts":12}' + '''  same(send("i12", 1, 5), "op.o12 1:5;");
  same(send("i12", 2, 6), "op.o12 2:6;");''')),
    dict(id="timeshift-short", property="C08",
         edits=[(STD + "TimeShift.h", "    this->dt = dt;", "    this->dt = static_cast<float>(dt);")],
         needs="a shift that single precision does not hold, as a day in nanoseconds and one",
         breaks="the shift is rounded",
         cpp=main(SINGLE % '{"type":"TimeShift","id":"op","dt":16777217,"times":2}' + '''  same(send("i1", 1, 5), "op.o1 33554435:5;");''')),
    dict(id="peak-plateau-late", property="C06",
         edits=[(STD + "PeakDetector.h", "    size_t pos = size / 2;  // expected position of the max", "    size_t pos = size > 31 ? (size - 1) / 2 : size / 2;  // expected position of the max")],
         needs="a PeakDetector with an even window of more than 31",
         breaks="the place of the peak is one off",
         cpp=main(SINGLE % '{"type":"PeakDetector","id":"op","n":32}' + '''  for (int t = 1; t < 32; t++) send("i1", t, t == 17 ? 9 : t % 3);
  same(send("i1", 32, 0), "op.o1 17:9;");''')),
    dict(id="batch-values-short", property="C13",
         edits=[(API + "src/bindings.cpp", "    auto value = values[i];\n", "    float value = values[i];\n")],
         needs="a batch sent through the bindings with values that single precision does not hold",
         breaks="the values of the batch are rounded",
         **{k: (v if k != "files" else dict(v, **{"demo.cpp": '''#include <cstdio>
#include "rtbot/bindings.h"
int main() {
  createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"}],"connections":[]})");
  std::string r = processBatch("p", {1, 2}, {16777217, 2}, {"i1", "i1"});
  if (r.find("16777217") == std::string::npos) { printf("FAILED: %s\\n", r.c_str()); return 1; }
  return 0;
}
'''})) for k, v in [b for b in core.BUGS if b["id"] == "buffer-time-32bit"][0].items() if k in ("sh", "files")}),
    dict(id="py-columns-missing", property="C23",
         edits=[(around.RTPY, "                api.addToMessageBuffer(self.program.id, ports[i - 1], row[0], row[i])", "                api.addToMessageBuffer(self.program.id, ports[i - len(row)], row[0], row[i])")],
         needs="a row with fewer values than the entry operator has ports",
         breaks="its values go to the last ports in place of the first",
         **around.py('''p = rtbot.Program([{"id": "in", "type": "Input", "numPorts": 2}], [], "in")
rtbot.Run(p, [[1, 5, 6], [2, 7]]).exec()
same(calls, [{"i1": [{"time": 1, "value": 5}], "i2": [{"time": 1, "value": 6}]}, {"i1": [{"time": 2, "value": 7}]}])
''')),
    dict(id="js-delete-connection-backwards", property="C24",
         edits=[(around.PTS, "    this.connections = this.connections.filter(({ from, to }) => from !== opId && to !== opId);",
                 "    this.connections = this.connections.filter(({ from, to }) => !(from === opId || (to === opId && from !== this.entryOperator)));")],
         needs="deleting an operator that is connected to the entry operator",
         breaks="the connection from the entry to the deleted operator stays",
         **around.js('''import { Program, Operator } from "program";
class Op extends Operator { constructor(id, type) { super(id); this.type = type; } }
const p = new Program();
const [a, b] = [new Op("a", "Input"), new Op("b", "Output")];
p.addOperator(a);
p.addOperator(b);
p.addConnection(a, b);
p.deleteOperator("b");
same(p.connections.length, 0);
''')),
]
