// Calls of a module (py, wasm), one in each line: ["function", arguments...]; answers {"r": result} or {"err": message}.
#include <iostream>

#include "calls.h"
using namespace std;
int main(int argc, char** argv) {
  auto& fns = calls::modules()[argc > 1 ? argv[1] : ""];
  cout.rdbuf(nullptr);
  string line;
  FILE* out = stdout;
  while (getline(cin, line)) {
    calls::json r;
    try {
      auto c = calls::json::parse(line);
      string name = c.at(0);
      if (fns.count(name) == 0) throw runtime_error("no function " + name);
      c.erase(0);
      r = {{"r", fns.at(name)(c)}};
    } catch (exception const& e) {
      r = {{"err", e.what()}};
    }
    string s = r.dump() + "\n";
    fwrite(s.data(), 1, s.size(), out);
    fflush(out);
  }
}
