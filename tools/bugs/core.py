CORE, STD, API = "libs/core/include/rtbot/", "libs/std/include/rtbot/std/", "libs/api/"
JOIN2 = '''  string p = R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"%s","id":"op"%s}],
    "connections":[{"from":"in","to":"op","fromPort":"o1","toPort":"i1"},{"from":"in","to":"op","fromPort":"o2","toPort":"i2"}],"output":{"op":["o1"]}})";
  FactoryOp f;
  f.createProgram("p", p);
  auto send = [&](const char* port, uint64_t t, double v) { return show(f.processMessageMap("p", {{port, {M(t, v)}}})); };
'''
SINGLE = '''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"op","operators":[%s],"connections":[],"output":{"op":["o1"]}})");
  auto send = [&](const char* port, uint64_t t, double v) { return show(f.processMessageMap("p", {{port, {M(t, v)}}})); };
'''


def main(body):
    return "int main() {\n" + body + "\n  return failed;\n}"


BUGS = [
    dict(id="input-stale-lowers-last", property="C01",
         edits=[(CORE + "Input.h", """          outputMsgs.emplace(portsMap.find(inputPort)->second, v);
          this->lastSent.erase(inputPort);
          this->lastSent.emplace(inputPort, m0);
        }
""", """          outputMsgs.emplace(portsMap.find(inputPort)->second, v);
        }
        // remember what this port saw last
        this->lastSent.erase(inputPort);
        this->lastSent.emplace(inputPort, m0);
""")],
         needs="on one port: a message, an older one (dropped), then one between the two, which should be dropped as well",
         breaks="the input remembers the time of dropped messages, so that a late message passes after another late one",
         cpp=main(SINGLE % '{"type":"Input","id":"op"}' + '''  same(send("i1", 10, 1), "op.o1 10:1;");
  same(send("i1", 5, 2), "");
  same(send("i1", 7, 3), "");
  same(send("i1", 11, 4), "op.o1 11:4;");''')),
    dict(id="join-queue-bounded", property="C02", also=["C12"],
         edits=[(CORE + "Join.h", """    if (this->dataInputs.count(inputPort) > 0) {
      this->dataInputs.find(inputPort)->second.push_back(msg);
""", """    if (auto queue = this->dataInputs.find(inputPort); queue != this->dataInputs.end()) {
      // do not let a port without a counterpart grow for ever
      if (this->dataInputs.find(inputPort)->second.size() >= 256) {
        this->dataInputs.find(inputPort)->second.setSum(this->dataInputs.find(inputPort)->second.getSum() -
                                                        this->dataInputs.find(inputPort)->second.front().value);
        this->dataInputs.find(inputPort)->second.pop_front();
      }
      this->dataInputs.find(inputPort)->second.push_back(msg);
""")],
         needs="one port of a synchronized operator more than 256 messages ahead of another one",
         breaks="the oldest waiting messages are dropped, so tuples are missing when one stream runs far ahead of the other",
         cpp=main(JOIN2 % ("Join", ', "numPorts":2') + '''  for (int t = 1; t <= 300; t++) send("i1", t, t);
  same(send("i2", 2, 7), "op.o1 2:2;");
  same(send("i2", 299, 7), "op.o1 299:299;");''')),
    dict(id="comparison-blocks", property="C03",
         edits=[(CORE + "Join.h", """      auto toEmit = processData();
      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {""", """      auto toEmit = processData();
      for (auto it = this->dataInputs.begin(); !toEmit.empty() && it != this->dataInputs.end(); ++it) {""")],
         needs="a synchronized pair without a result (division by zero, unfulfilled comparison) followed by others",
         breaks="the pair stays at the front of the queues and holds back all the later ones",
         cpp=main(JOIN2 % ("Division", "") + '''  send("i1", 1, 6);
  same(send("i2", 1, 0), "");
  send("i1", 2, 6);
  same(send("i2", 2, 3), "op.o1 2:2;");''')),
    dict(id="demux-discards-one", property="C04",
         edits=[(CORE + "Demultiplexer.h", "      while (!it->second.empty() && (it->second.front().time <", "      if (!it->second.empty() && (it->second.front().time <")],
         needs="two or more control instructions without data between two data messages",
         breaks="only one outdated instruction is discarded, the next one is taken as a mismatch and reported as an error",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Demultiplexer","id":"op","numPorts":1}],
    "connections":[{"from":"in","to":"op","fromPort":"o1","toPort":"i1"},{"from":"in","to":"op","fromPort":"o2","toPort":"c1"}],"output":{"op":["o1"]}})");
  auto send = [&](const char* port, uint64_t t, double v) { return show(f.processMessageMap("p", {{port, {M(t, v)}}})); };
  try {
    send("i2", 1, 1); send("i2", 2, 0); send("i2", 3, 1);
    same(send("i1", 3, 5), "op.o1 3:5;");
  } catch (exception& e) { expect(false, e.what()); }''')),
    dict(id="variable-keeps-queries", property="C05",
         edits=[(STD + "Variable.h", 'this->addControlInput("c1", 1);', 'this->addControlInput("c1");')],
         needs="two queries before the definition that answers them",
         breaks="an unanswered query is kept in front of the newer one, so the answers lag behind from then on",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Variable","id":"op","value":9}],
    "connections":[{"from":"in","to":"op","fromPort":"o1","toPort":"i1"},{"from":"in","to":"op","fromPort":"o2","toPort":"c1"}],"output":{"op":["o1"]}})");
  auto send = [&](const char* port, uint64_t t, double v) { return show(f.processMessageMap("p", {{port, {M(t, v)}}})); };
  send("i1", 1, 4); send("i2", 3, 0); send("i2", 5, 0);
  same(send("i1", 6, 8), "op.o1 5:4;");
  send("i2", 7, 0);
  same(send("i1", 8, 2), "op.o1 7:8;");''')),
    dict(id="sum-single-precision", property="C06",
         edits=[(CORE + "Operator.h", "    size_t max;\n    V sum;\n", "    size_t max;\n    float sum;\n"),
                (CORE + "Operator.h", "      // Deserialize sum\n      sum = *reinterpret_cast<const V *>(&(*it));", "      // Deserialize sum\n      sum = *reinterpret_cast<const float *>(&(*it));")],
         needs="values that need more than 24 bits",
         breaks="the running sum of a window is kept in single precision, so averages are wrong for large or finely resolved values",
         cpp=main(SINGLE % '{"type":"MovingAverage","id":"op","n":2}' + '''  send("i1", 1, 33554433);
  same(send("i1", 2, 33554435), "op.o1 2:33554434;");''')),
    dict(id="cumulative-counts-fraction", property="C07",
         edits=[(STD + "CumulativeSum.h", "this->accumulated = this->accumulated + out.value;", "if (out.value != this->accumulated || out.value == 0) this->accumulated = this->accumulated + out.value;\n    else this->accumulated = 2 * out.value - (out.time == lastTime ? out.value : 0);\n    lastTime = out.time;"),
                (STD + "CumulativeSum.h", "  V accumulated;\n", "  V accumulated;\n  T lastTime = 0;\n")],
         needs="a message that repeats the time of the one before and whose value equals the sum so far",
         breaks="such a message is not added",
         cpp=main(SINGLE % '{"type":"CumulativeSum","id":"op"}' + '''  same(send("i1", 1, 3), "op.o1 1:3;");
  same(send("i1", 1, 3), "op.o1 1:6;");''')),
    dict(id="function-points-unsorted", property="C08",
         edits=[(STD + "Function.h", "    sort(points.begin(), points.end());\n", "    if (points.size() > 2 && points.front().first > points.back().first) sort(points.begin(), points.end());\n")],
         needs="a table whose points are given in a mixed order",
         breaks="the points are only sorted when the first one is beyond the last one, so the wrong segment is used for a table in mixed order",
         cpp=main(SINGLE % '{"type":"Function","id":"op","points":[[0,0],[2,4],[1,10],[3,6]]}' + '''  same(send("i1", 1, 0.5), "op.o1 1:5;");
  same(send("i1", 2, 1.5), "op.o1 2:7;");''')),
    dict(id="constant-resampler-drift", property="C09",
         edits=[(STD + "ConstantResampler.h", """    if (nextEmit == msg.time) {
      Message<T, V> out;""", """    if (nextEmit == msg.time && !(toEmit.size() > 1 && toEmit.back().value == msg.value)) {
      Message<T, V> out;""")],
         needs="a gap with two grid points or more that ends exactly on the grid, with a message of the same value as the last one",
         breaks="the last grid point of the gap is emitted late, with the next message",
         cpp=main(SINGLE % '{"type":"ConstantResampler","id":"op","interval":2}' + '''  send("i1", 10, 3);
  same(send("i1", 16, 3), "op.o1 12:3 14:3 16:3;");''')),
    dict(id="cosine-gap-limited", property="C10",
         edits=[(STD + "CosineResampler.h", "           (j * dt) - carryOver) {", "               (j * dt) - carryOver &&\n           j <= 64) {")],
         needs="a gap of more than 64 times dt between two messages",
         breaks="only 64 points are emitted in a gap, and the grid is lost afterwards",
         cpp=main(SINGLE % '{"type":"CosineResampler","id":"op","dt":2}' + '''  send("i1", 100, 1);
  string r = send("i1", 300, 1);
  expect(r.find(" 300:1") != string::npos, "the grid reaches the second message");
  same(send("i1", 303, 1), "op.o1 302:1;");''')),
    dict(id="merge-drops-same-time", property="C11", also=["C13"],
         edits=[(CORE + "Operator.h", "      for (auto resultMessage : msgs) vec.push_back(resultMessage);", "      for (auto resultMessage : msgs)\n        if (vec.empty() || vec.back().time != resultMessage.time || vec.back().value != resultMessage.value)\n          vec.push_back(resultMessage);")],
         needs="an operator that emits two equal messages through a port during one reception",
         breaks="the second one is missing in the results",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"TimeShift","id":"s","dt":10,"times":-1}],
    "connections":[{"from":"in","to":"s"}],"output":{"s":["o1"]}})");
  same(show(f.processMessageMap("p", {{"i1", {M(1, 5), M(2, 5), M(12, 5)}}})), "s.o1 0:5 0:5 2:5;");''')),
    dict(id="buffer-time-32bit", property="C13", also=["C19"],
         edits=[(API + "src/bindings.cpp", "    auto time = times[i];\n", "    unsigned time = times[i];\n")],
         needs="a batch sent through the bindings with times beyond 32 bits",
         breaks="the times of the batch are cut to 32 bits",
         sh="""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/rtbot" "$tmp/nlohmann"
cp "$here/jsonschema.hpp" "$tmp/rtbot/"
cp "$here/json-schema.hpp" "$tmp/nlohmann/"
I="-I$tmp -Ilibs/core/include -Ilibs/std/include -Ilibs/finance/include -Ilibs/api/include -Ilibs/core/include/rtbot"
F="-std=c++17 -O0 -w -include cstdint -include string -include cmath -include functional -include optional -include iostream"
g++ $F $I "$here/demo.cpp" libs/api/src/*.cpp -o "$tmp/demo" || exit 3
timeout 60 "$tmp/demo"
""", files={
             "jsonschema.hpp": '#pragma once\n#include <nlohmann/json.hpp>\nstatic nlohmann::json rtbot_schema = nlohmann::json::object();\n',
             "json-schema.hpp": '''#pragma once
// stands in for the validator, everything is valid
#include <nlohmann/json.hpp>
namespace nlohmann { namespace json_schema {
inline void default_string_format_check(const std::string&, const std::string&) {}
struct json_validator { template <class A, class B> json_validator(A, B) {} void set_root_schema(const json&) {} void validate(const json&) {} };
} }
''',
             "demo.cpp": '''#include <cstdio>
#include "rtbot/bindings.h"
int main() {
  createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"}],"connections":[]})");
  std::string r = processBatch("p", {8589934597ull, 8589934599ull}, {1, 2}, {"i1", "i1"});
  if (r.find("8589934597") == std::string::npos || r.find("8589934599") == std::string::npos) { printf("FAILED: %s\\n", r.c_str()); return 1; }
  return 0;
}
'''}),
    dict(id="filter-stops-at-silent", property="C14",
         edits=[(API + "include/rtbot/Program.h", "          if (outResults.count(op->second.at(i)) > 0) {", "          if (outResults.count(op->second.at(i)) == 0) break;\n          {")],
         needs="a selection of several ports of one operator, of which the first one listed emitted nothing in a reception",
         breaks="the ports listed after a silent one are left out of the result",
         cpp=main('''  FactoryOp f;
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2}],"connections":[],"output":{"in":["o1","o2"]}})");
  same(show(f.processMessageMap("p", {{"i2", {M(1, 5)}}})), "in.o2 1:5;");''')),
    dict(id="hermite-before-lost", property="C15",
         edits=[(STD + "HermiteResampler.h", "      this->before = make_unique<Message<T, V>>();\n      this->before->restore(it);", "      auto before = make_unique<Message<T, V>>();\n      before->restore(it);")],
         needs="a HermiteResampler saved after its first interval",
         breaks="the restored one takes itself for new and emits its first interval again",
         cpp=main('''  string p = R"({"entryOperator":"op","operators":[{"type":"HermiteResampler","id":"op","dt":2}],"connections":[],"output":{"op":["o1"]}})";
  FactoryOp f;
  f.createProgram("a", p);
  for (int t = 1; t <= 5; t++) f.processMessageMap("a", {{"i1", {M(t, t * t)}}});
  f.createProgram("b", f.serialize("a"));
  for (int t = 6; t <= 9; t++) {
    auto x = show(f.processMessageMap("a", {{"i1", {M(t, t * t)}}}));
    same(show(f.processMessageMap("b", {{"i1", {M(t, t * t)}}})), x);
  }''')),
    dict(id="pipeline-control-hides-data", property="C17",
         edits=[(API + "src/Pipeline.cpp", "if (op2->dataInputs.size()==1 && op2->controlInputs.size()==0)", "if (op2->dataInputs.size()==1)")],
         needs="a pipeline with an operator whose control port is connected inside and whose only data port is not",
         breaks="the data port is taken for connected, and the pipeline has no input port for it",
         cpp=main('''  FactoryOp f;
  try {
  f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Pipeline","id":"pipe","prog":{"operators":[
    {"type":"EqualTo","id":"a","value":1},{"type":"Demultiplexer","id":"d","numPorts":1}],"connections":[{"from":"a","to":"d","toPort":"c1"}]}}],
    "connections":[{"from":"in","to":"pipe","fromPort":"o1","toPort":"i1"},{"from":"in","to":"pipe","fromPort":"o2","toPort":"i2"}],"output":{"pipe":["o1"]}})");
  f.processMessageMap("p", {{"i1", {M(1, 1)}}});
  same(show(f.processMessageMap("p", {{"i2", {M(1, 7)}}})), "pipe.o1 1:7;");
  } catch (exception& e) { expect(false, e.what()); }''')),
    dict(id="composite-timeshift-once", property="C18",
         edits=[(CORE + "Composite.h", "make_shared<TimeShift<T, V>>(id, dt, times)", "make_shared<TimeShift<T, V>>(id, dt * abs(times))")],
         needs="a TimeShift of a composite with negative times",
         breaks="it shifts forward in place of backward",
         src="", cpp='''#include "rtbot/Composite.h"
''' + main('''  Composite<uint64_t, double> c("c");
  c.createInput("in", 1); c.createTimeShift("s", 3, -2); c.createOutput("out", 1);
  c.createInternalConnection("in", "s"); c.createInternalConnection("s", "out");
  c.receiveData(M(20, 1), "i1");
  auto r = c.executeData();
  expect(r["s"]["o1"].size() == 1 && r["s"]["o1"][0].time == 14, "shifted back by six");''')),
    dict(id="create-replaces", property="C19",
         edits=[(API + "src/FactoryOp.cpp", """    programs.emplace(id, Program(json_program));
    return "";""", """    // a program without messages on the way can be replaced
    Program program(json_program);
    if (messageBuffer.count(id) == 0) programs.erase(id);
    programs.emplace(id, std::move(program));
    return "";""")],
         needs="creating a program with an id that is taken",
         breaks="the live program and its state are replaced by the new one",
         cpp=main('''  string p = R"({"entryOperator":"op","operators":[{"type":"Count","id":"op"}],"connections":[],"output":{"op":["o1"]}})";
  FactoryOp f;
  f.createProgram("p", p);
  f.processMessageMap("p", {{"i1", {M(1, 5)}}});
  try { f.createProgram("p", p); } catch (exception&) {}
  same(show(f.processMessageMap("p", {{"i1", {M(2, 5)}}})), "op.o1 2:2;");''')),
    dict(id="connect-first-port", property="C20",
         edits=[(CORE + "Operator.h", "      // auto assign if there is just one output\n      if (out.size() == 1) outputPort = out.at(0);", "      // auto assign the output\n      if (out.size() >= 1) outputPort = out.at(0);")],
         needs="a connection that omits the output port of an operator with several ones",
         breaks="the ambiguous program is accepted in place of refused",
         cpp=main('''  FactoryOp f;
  bool refused = false;
  try { f.createProgram("p", R"({"entryOperator":"in","operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Count","id":"c"}],"connections":[{"from":"in","to":"c"}]})"); }
  catch (exception&) { refused = true; }
  expect(refused, "an ambiguous connection is refused");''')),
    dict(id="timeshift-times-unwritten", property="C21",
         edits=[(API + "src/FactoryOp.cpp", '{"dt", p.getDT()}, {"times", p.getTimes()}};', '{"dt", p.getDT()}};\n  if (p.getTimes() > 1) j["times"] = p.getTimes();')],
         needs="a TimeShift with zero or negative times",
         breaks="its json lacks the times, and reading it gives an operator that shifts forward once",
         cpp=main('''  FactoryOp f;
  auto op = FactoryOp::readOp(R"({"type":"TimeShift","id":"s","dt":3,"times":-2})");
  auto j = nlohmann::json::parse(FactoryOp::writeOp(op));
  expect(j.contains("times") && j["times"] == -2, "the times are written");
  auto op2 = FactoryOp::readOp(FactoryOp::writeOp(op));
  op2->receiveData(M(20, 1), "i1");
  expect(op2->executeData()["s"]["o1"][0].time == 14, "the copy shifts back by six");''')),
    dict(id="rsi-flat-change", property="C22",
         edits=[("libs/finance/include/rtbot/finance/RelativeStrengthIndex.h", """        loss = 0;
        gain = 0;
      }
""", """        // nothing changed
        loss = prevAverageLoss;
        gain = prevAverageGain;
      }
"""), ("libs/finance/include/rtbot/finance/RelativeStrengthIndex.h", "    if (averageLoss > 0) {", "    if (averageLoss > 0 || (averageGain == 0 && averageLoss < 0)) {")],
         needs="two equal values in a row after the first window, followed by a change",
         breaks="a change of zero does not decay the averages, so the later values are wrong",
         cpp=main(SINGLE % '{"type":"RelativeStrengthIndex","id":"op","n":2}' + '''  send("i1", 1, 1); send("i1", 2, 5);
  same(send("i1", 3, 3), "op.o1 3:66.666666666666657;");
  send("i1", 4, 3);
  // gains 2 -> 1 -> 0.5 + 1, losses 1 -> 0.5 -> 0.25
  string r = send("i1", 5, 5);
  expect(fabs(atof(r.c_str() + r.find(":") + 1) - (100 - 100 / (1 + 1.5 / 0.25))) < 1e-9, r.c_str());''')),
]

BUGS += [
    dict(id="pipeline-ports-as-declared", property="C12", also=["C17"],
         edits=[(API + "src/Pipeline.cpp", """    int c=1;
    for (auto [key, op] : inputs) {
        string name="i"s+std::to_string(c++);
        this->addDataInput(name, 1);
        portsMap.emplace(name,key);
    }
""", """    int c=1;
    for (const json& x : j.at("operators"))
        for (auto [key, op] : inputs) {
            if (op->id != x.at("id").get<string>()) continue;
            string name="i"s+std::to_string(c++);
            this->addDataInput(name, 1);
            portsMap.emplace(name,key);
        }
""")],
         needs="a pipeline with two open inputs whose operators are listed in another order than that of their ids",
         breaks="the input ports of the pipeline are numbered as its operators are listed",
         cpp=main('''  for (bool turned : {false, true}) {
    FactoryOp f;
    string a = R"({"type":"Add","id":"a","value":1})", b = R"({"type":"Add","id":"b","value":2})";
    string prog = R"({"entryOperator":"p","operators":[{"type":"Pipeline","id":"p","prog":{"operators":[)" + (turned ? b + "," + a : a + "," + b) + R"(],"connections":[]}}],"connections":[]})";
    expect(f.createProgram("p", prog).empty(), "created");
    same(show(f.processMessageMap("p", {{"i1", {M(1, 10)}}})), "p.o1 1:11;");
  }''')),
    dict(id="resampler-saves-float", property="C16", also=["C15"],
         edits=[(STD + "ConstantResampler.h", """    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&lastValue),
                 reinterpret_cast<const unsigned char*>(&lastValue) + sizeof(lastValue));
""", """    float last = lastValue;
    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&last),
                 reinterpret_cast<const unsigned char*>(&last) + sizeof(last));
"""), (STD + "ConstantResampler.h", """    lastValue = *reinterpret_cast<const V*>(&(*it));
    it += sizeof(lastValue);
""", """    lastValue = *reinterpret_cast<const float*>(&(*it));
    it += sizeof(float);
""")],
         needs="saving a ConstantResampler, in a pipeline, after a value that single precision does not hold",
         breaks="the value is rounded when the program is restored",
         cpp=main('''  FactoryOp f, g;
  string prog = R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"p","prog":{"operators":[{"type":"ConstantResampler","id":"r","interval":2}],"connections":[]}}],
    "connections":[{"from":"in","to":"p","fromPort":"o1","toPort":"i1"}],"output":{"p":["o1"]}})";
  expect(f.createProgram("p", prog).empty(), "created");
  same(show(f.processMessageMap("p", {{"i1", {M(1, 16777217.5)}}})), "");
  auto bytes = f.serialize("p");
  g.createProgram("q", bytes);
  same(show(g.processMessageMap("q", {{"i1", {M(4, 1)}}})), show(f.processMessageMap("p", {{"i1", {M(4, 1)}}})));''')),
]

HAND = '''  auto op = [](const char* j) { return FactoryOp::readOp(j); };
  auto send = [](Op_ptr<uint64_t, double>& o, const char* port, uint64_t t, double v) { o->receiveData(M(t, v), port); return show(o->executeData()); };
'''
BUGS += [
    dict(id="wire-starts-fresh", property="C31",
         edits=[(CORE + "Operator.h", """      Connection c;
      c.fOperator = child;
      c.inputPort = inputPort;
""", """      // nothing from before the connection
      for (auto& [port, queue] : child->dataInputs) queue = Input(port, queue.getMaxSize());
      Connection c{child, inputPort};
""")],
         needs="a connection to an operator in which messages of another port are waiting",
         breaks="the messages that wait in the operator vanish",
         cpp=main(HAND + '''  auto in = op(R"({"type":"Input","id":"in","numPorts":2})"), j = op(R"({"type":"Join","id":"j","numPorts":2})");
  expect(in->connect(*j, "o1", "i1"), "connected");
  same(send(in, "i1", 1, 5), "in.o1 1:5;");
  expect(in->connect(*j, "o2", "i2"), "connected");
  same(send(in, "i2", 1, 7), "in.o2 1:7;j.o1 1:5;j.o2 1:7;");''')),
    dict(id="demux-guesses-port", property="C31",
         edits=[(CORE + "Demultiplexer.h", """  void receiveData(Message<T, V> msg, string inputPort = "") override {
    if (inputPort.empty()) {
""", """  void receiveData(Message<T, V> msg, string inputPort = "") override {
    if (this->dataInputs.count(inputPort) == 0) {
""")],
         needs="a message for a port that a Demultiplexer does not have",
         breaks="it is taken for one of its data port instead of being refused",
         cpp=main(HAND + '''  auto d = op(R"({"type":"Demultiplexer","id":"d","numPorts":1})");
  bool refused = false;
  try { send(d, "i3", 1, 5); } catch (const exception&) { refused = true; }
  expect(refused, "refused");
  d->receiveControl(M(1, 1), "c1");
  same(show(d->executeControl()), "");''')),
    dict(id="wire-first-output", property="C31", also=["C20", "C18"],
         edits=[(CORE + "Operator.h", "      if (out.size() == 1) outputPort = out.at(0);", "      if (!out.empty()) outputPort = out.at(0);")],
         needs="a connection without output port from an operator that has several",
         breaks="the first one is taken, the connection ought to be refused",
         cpp=main(HAND + '''  auto in = op(R"({"type":"Input","id":"in","numPorts":2})"), a = op(R"({"type":"Identity","id":"a"})");
  bool refused = false;
  try { refused = in->connect(*a) == nullptr; } catch (const exception&) { refused = true; }
  expect(refused, "refused");
  same(send(in, "i1", 1, 5), "in.o1 1:5;");''')),
]
