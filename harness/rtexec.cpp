// Executes sessions of public rtbot operations and reports what they return. It judges nothing.
// One JSON job per line on stdin: {"id":n,"cmds":[[name,args...],...]}
// One JSON line per job on stdout:  {"id":n,"res":[...]}; a command that throws gives {"err":what}.
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <iostream>
#include <nlohmann/json.hpp>
#include <sstream>

#include "rtbot/Composite.h"
#include "rtbot/Collector.h"
#include "rtbot/FactoryOp.h"
#include "rtbot/Pipeline.h"
#include "rtbot/Program.h"
#ifdef WITH_BINDINGS
#include "rtbot/bindings.h"
#endif

using json = nlohmann::json;
using namespace std;
using namespace rtbot;
typedef uint64_t T;
typedef double V;

static void num(string& o, double v) {
  char b[40];
  if (std::isnan(v)) o += "\"nan\"";
  else if (std::isinf(v)) o += v > 0 ? "\"inf\"" : "\"-inf\"";
  else { snprintf(b, sizeof b, "%.17g", v); o += b; }
}
static void str(string& o, const string& s) { o += json(s).dump(-1, ' ', true, json::error_handler_t::replace); }
static void msgs(string& o, const PortMessage<T, V>& ms) {
  o += "[";
  bool f = true;
  for (auto& m : ms) {
    if (!f) o += ",";
    f = false;
    o += "[" + to_string(m.time) + ",";
    num(o, m.value);
    o += "]";
  }
  o += "]";
}
static string opm(const OperatorMessage<T, V>& x) {
  string o = "{";
  for (auto& [p, ms] : x) {
    if (o.size() > 1) o += ",";
    str(o, p);
    o += ":";
    msgs(o, ms);
  }
  return o + "}";
}
static string prm(const ProgramMessage<T, V>& x) {
  string o = "{";
  for (auto& [id, m] : x) {
    if (o.size() > 1) o += ",";
    str(o, id);
    o += ":" + opm(m);
  }
  return o + "}";
}
static OperatorMessage<T, V> batch(const json& j) {
  OperatorMessage<T, V> r;
  for (auto& [p, ms] : j.items())
    for (auto& m : ms) r[p].push_back(Message<T, V>(m[0].get<T>(), m[1].get<V>()));
  return r;
}
static string q(const string& s) { string o; str(o, s); return o; }

struct Session {
  map<string, Op_ptr<T, V>> ops;
  map<string, unique_ptr<Program>> progs;
  map<string, Bytes> bytes;
  map<string, unique_ptr<Composite<T, V>>> comps;
  unique_ptr<FactoryOp> fac;

  Operator<T, V>* op(const string& h) {
    if (comps.count(h)) return comps.at(h).get();
    return ops.at(h).get();
  }
  string make(const string& h, const json& c) {
    Op_ptr<T, V> o = FactoryOp::readOp(c.dump());
    ops[h] = std::move(o);
    return "\"ok\"";
  }
  string within(const string& h, const json& o) { // creates an operator inside a composite
      auto c = comps.at(h).get();
      string t = o.at("type"), id = o.at("id");
      auto v = [&](const char* k) { return o.at(k).get<V>(); };
      auto n = [&](const char* k) { return o.at(k).get<size_t>(); };
      if (t == "Input") c->createInput(id, n("numPorts"));
      else if (t == "Output") c->createOutput(id, n("numPorts"));
      else if (t == "Add") c->createAdd(id, v("value"));
      else if (t == "AutoRegressive") c->createAutoregressive(id, o.at("coeff").get<vector<V>>());
      else if (t == "Constant") c->createConstant(id, v("value"));
      else if (t == "CosineResampler") c->createCosineResampler(id, n("dt"));
      else if (t == "HermiteResampler") c->createHermiteResampler(id, n("dt"));
      else if (t == "Count") c->createCount(id);
      else if (t == "CumulativeSum") c->createCumulativeSum(id);
      else if (t == "Join") c->createJoin(id, n("numPorts"));
      else if (t == "Division") c->createDivision(id);
      else if (t == "Minus") c->createMinus(id);
      else if (t == "Linear") c->createLinear(id, o.at("coeff").get<vector<V>>());
      else if (t == "EqualTo") c->createEqualTo(id, v("value"));
      else if (t == "GreaterThan") c->createGreaterThan(id, v("value"));
      else if (t == "LessThan") c->createLessThan(id, v("value"));
      else if (t == "Identity") c->createIdentity(id);
      else if (t == "MovingAverage") c->createMovingAverage(id, n("n"));
      else if (t == "PeakDetector") c->createPeakDetector(id, n("n"));
      else if (t == "StandardDeviation") c->createStandardDeviation(id, n("n"));
      else if (t == "Demultiplexer") c->createDemultiplexer(id, n("numPorts"));
      else if (t == "Power") c->createPower(id, v("value"));
      else if (t == "Scale") c->createScale(id, v("value"));
      else if (t == "TimeShift") c->createTimeShift(id, o.at("dt").get<T>(), o.at("times").get<int>());
      else if (t == "FiniteImpulseResponse") c->createFiniteImpulseResponse(id, o.at("coeff").get<vector<V>>());
      else if (t == "Difference") c->createDifference(id, o.value("useOldestTime", true));
      else if (t == "Variable") c->createVariable(id, v("value"));
      else throw logic_error("harness: no create for " + t);
      return "\"ok\"";
  }
  string composite(const string& h, const json& spec) {
    comps[h] = make_unique<Composite<T, V>>(h);
    for (auto& o : spec.at("ops")) within(h, o);
    for (auto& k : spec.at("conns")) comps.at(h)->createInternalConnection(k[0], k[2], k[1], k[3]);
    return "\"ok\"";
  }


  string run(const json& c) {
    string k = c[0];
    auto s = [&](int i) { return c[i].get<string>(); };
    auto m = [&](int i) { return Message<T, V>(c[i].get<T>(), c[i + 1].get<V>()); };
    // single operators
    if (k == "op") return make(s(1), c[2]);
    if (k == "d") { op(s(1))->receiveData(m(3), s(2)); return prm(op(s(1))->executeData()); }
    if (k == "c") { op(s(1))->receiveControl(m(3), s(2)); return prm(op(s(1))->executeControl()); }
    if (k == "m") { // as a connection delivers it
      auto o = op(s(1));
      if (o->isDataInput(s(2))) { o->receiveData(m(3), s(2)); return prm(o->executeData()); }
      if (o->isControlInput(s(2))) { o->receiveControl(m(3), s(2)); return prm(o->executeControl()); }
      throw runtime_error("no port " + s(2));
    }
    if (k == "collect") { bytes[s(2)] = op(s(1))->collect(); return to_string(bytes[s(2)].size()); }
    if (k == "restore") {
      Bytes& b = bytes.at(s(2));
      Bytes::const_iterator it = b.begin();
      op(s(1))->restore(it);
      return it == b.end() ? "\"all\"" : to_string(it - b.begin());
    }
    if (k == "write") {
      if (ops.count(s(1)) == 0) throw runtime_error("not an operator");
      return q(FactoryOp::writeOp(ops.at(s(1))));
    }
    if (k == "rewrite") { // the operator that its json describes takes its place
      string text = FactoryOp::writeOp(ops.at(s(1)));
      ops[s(1)] = FactoryOp::readOp(text);
      return q(text);
    }
    if (k == "connect") { return op(s(1))->connect(op(s(3)), s(2), s(4)) ? "true" : "false"; }
    if (k == "composite") return composite(s(1), c[2]);
    if (k == "comp.new") { comps[s(1)] = make_unique<Composite<T, V>>(s(1)); return "\"ok\""; }
    if (k == "comp.op") return within(s(1), c[2]);
    if (k == "comp.conn") { comps.at(s(1))->createInternalConnection(s(2), s(4), s(3), s(5)); return "\"ok\""; }
    if (k == "shape") {
      json r = {{"in", op(s(1))->getDataInputs()}, {"ctl", op(s(1))->getControlInputs()}, {"out", op(s(1))->getOutputs()}};
      return r.dump();
    }
    // programs
    if (k == "prog") { progs[s(1)] = make_unique<Program>(s(2)); return "\"ok\""; }
    if (k == "recv") return prm(progs.at(s(1))->receive(batch(c[2])));
    if (k == "recvd") return prm(progs.at(s(1))->receiveDebug(batch(c[2])));
    if (k == "ser") { bytes[s(2)] = progs.at(s(1))->serialize(); return to_string(bytes[s(2)].size()); }
    if (k == "unser") { progs[s(1)] = make_unique<Program>(bytes.at(s(2))); return "\"ok\""; }
    if (k == "same") return bytes.at(s(1)) == bytes.at(s(2)) ? "true" : "false";
    if (k == "drop") { progs.erase(s(1)); return "\"ok\""; }
    if (k == "ports") return json(progs.at(s(1))->getProgramEntryPorts()).dump();
    if (k == "entry") return q(progs.at(s(1))->getProgramEntryOperatorId());
    if (k == "filter") return json(progs.at(s(1))->getProgramOutputFilter()).dump();
    if (k == "getprog") return q(progs.at(s(1))->getProgram());
    // registry
    if (k[0] == 'f' && k[1] == '.') {
      if (!fac) fac = make_unique<FactoryOp>();
      if (k == "f.new") { fac = make_unique<FactoryOp>(); return "\"ok\""; }
      if (k == "f.create") return q(fac->createProgram(s(1), s(2)));
      if (k == "f.bytes") return q(fac->createProgram(s(1), bytes.at(s(2))));
      if (k == "f.del") return fac->deleteProgram(s(1)) ? "true" : "false";
      if (k == "f.add") return fac->addToMessageBuffer(s(1), s(2), m(3)) ? "true" : "false";
      if (k == "f.proc") return prm(fac->processMessageBuffer(s(1)));
      if (k == "f.procd") return prm(fac->processMessageBufferDebug(s(1)));
      if (k == "f.map") return prm(fac->processMessageMap(s(1), batch(c[2])));
      if (k == "f.mapd") return prm(fac->processMessageMapDebug(s(1), batch(c[2])));
      if (k == "f.ser") { bytes[s(2)] = fac->serialize(s(1)); return to_string(bytes[s(2)].size()); }
      if (k == "f.ports") return json(fac->getProgramEntryPorts(s(1))).dump();
      if (k == "f.entry") return q(fac->getProgramEntryOperatorId(s(1)));
      if (k == "f.filter") return json(fac->getProgramOutputFilter(s(1))).dump();
    }
#ifdef WITH_BINDINGS
    if (k[0] == 'b' && k[1] == '.') {
      if (k == "b.create") return q(createProgram(s(1), s(2)));
      if (k == "b.bytes") { createProgram(s(1), bytes.at(s(2))); return "\"ok\""; }
      if (k == "b.del") return q(deleteProgram(s(1)));
      if (k == "b.add") return q(addToMessageBuffer(s(1), s(2), c[3].get<T>(), c[4].get<V>()));
      if (k == "b.proc") return q(processMessageBuffer(s(1)));
      if (k == "b.procd") return q(processMessageBufferDebug(s(1)));
      if (k == "b.batch" || k == "b.batchd") {
        auto t = c[2].get<vector<uint64_t>>();
        auto v = c[3].get<vector<double>>();
        auto p = c[4].get<vector<string>>();
        return q(k == "b.batch" ? processBatch(s(1), t, v, p) : processBatchDebug(s(1), t, v, p));
      }
      if (k == "b.map") return q(processMessageMap(s(1), batch(c[2])));
      if (k == "b.mapd") return q(processMessageMapDebug(s(1), batch(c[2])));
      if (k == "b.native") return prm(processMessageMapNative(s(1), batch(c[2])));
      if (k == "b.ser") { bytes[s(2)] = serializeProgram(s(1)); return to_string(bytes[s(2)].size()); }
      if (k == "b.ports") return q(getProgramEntryPorts(s(1)));
      if (k == "b.entry") return q(getProgramEntryOperatorId(s(1)));
      if (k == "b.filter") return q(getProgramOutputFilter(s(1)));
      if (k == "b.validate") return q(validate(s(1)));
      if (k == "b.validateop") return q(validateOperator(s(1), s(2)));
    }
#endif
    throw logic_error("harness: unknown command " + k);
  }
};

static void onalarm(int) { _exit(98); }

int main(int argc, char** argv) {
  unsigned limit = argc > 1 ? atoi(argv[1]) : 20;
  signal(SIGALRM, onalarm);
  // the code under test may print: keep our channel apart
  int fd = dup(1);
  FILE* out = fdopen(fd, "w");
  dup2(2, 1);
  FactoryOp registerOperators;
  string line;
  while (getline(cin, line)) {
    if (line.empty()) continue;
    alarm(limit);
    json job = json::parse(line);
    Session se;
    string o = "{\"id\":" + job.at("id").dump() + ",\"res\":[";
    bool first = true;
    for (auto& c : job.at("cmds")) {
      if (!first) o += ",";
      first = false;
      try {
        o += se.run(c);
      } catch (const logic_error& e) {
        if (string(e.what()).rfind("harness:", 0) == 0) { fprintf(stderr, "%s\n", e.what()); return 97; }
        o += "{\"err\":" + q(e.what()) + "}";
      } catch (const exception& e) {
        o += "{\"err\":" + q(e.what()) + "}";
      } catch (...) {
        o += "{\"err\":\"unknown\"}";
      }
    }
    o += "]}\n";
    fputs(o.c_str(), out);
    fflush(out);
  }
  return 0;
}
