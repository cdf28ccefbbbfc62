"""Makes, confirms and tries the planted bugs described in tools/bugs/*.py.

plant.py make [ID...]      writes /verif/seeded/ID/ from the description, against /repo's HEAD
plant.py confirm [ID...]   in a scratch copy: demo passes without and fails with the patch, which builds and passes the tests
plant.py try [ID...]       runs the check of its property on a scratch copy with the patch
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WT = "/tmp/plant-%d" % os.getpid()

FLAGS = "-std=c++17 -O0 -w -include cstdint -include string -include cmath -include functional -include optional -include iostream"
SH = {
    "cpp": """#!/bin/bash
# run with the tree of rtbot as working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
I="-Ilibs/core/include -Ilibs/std/include -Ilibs/finance/include -Ilibs/api/include -Ilibs/core/include/rtbot"
g++ %s $I "$here/demo.cpp" %s -o "$tmp/demo" || exit 3
timeout 60 "$tmp/demo"
""",
}
PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <nlohmann/json.hpp>
#include "rtbot/FactoryOp.h"
using namespace rtbot;
using namespace std;
typedef Message<uint64_t, double> M;
typedef ProgramMessage<uint64_t, double> R;
static int failed = 0;
static void expect(bool ok, const char* what) { if (!ok) { failed = 1; printf("FAILED: %s\n", what); } }
static string show(const R& r) {
  string s;
  for (auto& [op, ports] : r) for (auto& [port, ms] : ports) { s += op + "." + port; for (auto& m : ms) { char b[80]; snprintf(b, 80, " %llu:%.17g", (unsigned long long)m.time, m.value); s += b; } s += ";"; }
  return s;
}
static void same(const string& got, const string& want) { if (got != want) { failed = 1; printf("FAILED: got  [%s]\n        want [%s]\n", got.c_str(), want.c_str()); } }
'''
ALLSRC = "libs/api/src/FactoryOp.cpp libs/api/src/Program.cpp libs/api/src/Pipeline.cpp"


def bugs():
    r = {}
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in r, b["id"]
            r[b["id"]] = b
    return r


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def worktree():
    sh("git -C /repo worktree prune")
    p = sh("git -C /repo worktree add -f --detach %s HEAD" % WT)
    assert p.returncode == 0, p.stderr


def drop():
    sh("git -C /repo worktree remove --force %s" % WT)
    shutil.rmtree(WT + "-b", ignore_errors=True)
    sh("git -C /repo worktree prune")


def reset():
    sh("git checkout -q -- . && git clean -fdq", cwd=WT)


def make(b):
    reset()
    for f, old, new in b["edits"]:
        t = open(WT + "/" + f).read()
        n = t.count(old)
        assert n == 1, "%s: %d places for %r in %s" % (b["id"], n, old[:60], f)
        open(WT + "/" + f, "w").write(t.replace(old, new))
    d = VERIF + "/seeded/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=WT).stdout)
    # the lines changed belong to the original repository
    for f, _, _ in b["edits"]:
        base = open(d + "/patch.diff").read()
        for m in re.finditer(r"^@@ -(\d+)", base, re.M):
            pass
    added = 0
    for l in re.findall(r"^-(?!--)(.*)$", open(d + "/patch.diff").read(), re.M):
        for f, _, _ in b["edits"]:
            p = sh(["git", "show", "2fb79f0:" + f], cwd="/repo")
            if l in p.stdout.splitlines():
                added += 1
    if not added:
        print("WARNING %s changes no original line" % b["id"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "cpp" in b:
        open(d + "/demo.cpp", "w").write(PRE + b["cpp"] + "\n")
        open(d + "/demo.sh", "w").write(SH["cpp"] % (FLAGS, b.get("src", ALLSRC)))
    else:
        open(d + "/demo.sh", "w").write(b["sh"])
        for n, t in b.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)


def demo(b):
    p = sh(["bash", VERIF + "/seeded/" + b["id"] + "/demo.sh"], cwd=WT, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-800:]


def confirm(b):
    reset()
    rc, out = demo(b)
    if rc:
        print("NO  %s: demo fails without the patch (%d)\n%s" % (b["id"], rc, out))
        return False
    p = sh(["git", "apply", VERIF + "/seeded/" + b["id"] + "/patch.diff"], cwd=WT)
    assert p.returncode == 0, p.stderr
    rc, out = demo(b)
    if rc in (0, 3):
        print("NO  %s: demo gives %d with the patch\n%s" % (b["id"], rc, out))
        return False
    first = out.strip().splitlines()[:2]
    os.makedirs(WT + "-b/cmake", exist_ok=True)
    t = open("/opt/vp/cmake/CMakeLists.txt").read().replace("set(R /repo)", "set(R %s)" % WT)
    open(WT + "-b/cmake/CMakeLists.txt", "w").write(t)
    p = sh("export CC=gcc CXX=g++; cmake -S %s-b/cmake -B %s-b/out -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C %s-b/out" % (WT, WT, WT))
    if p.returncode:
        print("NO  %s does not build\n%s" % (b["id"], p.stdout[-1500:]))
        return False
    p = sh("timeout 300 %s-b/out/rtbot-benchmark --benchmark_counters_tabular=true </dev/null" % WT, cwd=WT)
    if p.returncode:
        print("NO  %s fails the tests" % b["id"])
        return False
    print("YES %s  %s" % (b["id"], " | ".join(first)[:200]))
    return True


def attempt(b):
    reset()
    p = sh(["git", "apply", VERIF + "/seeded/" + b["id"] + "/patch.diff"], cwd=WT)
    assert p.returncode == 0, p.stderr
    for c in [b["property"]] + b.get("also", []):
        t = time.time()
        p = sh(["python3-vt", VERIF + "/bin/check.py", c], env={"RT_REPO": WT, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=3000)
        caught = p.returncode == 1 and "VIOLATION property=%s " % c in p.stdout
        print("%s %-24s %s rc=%d %.0fs %s" % ("CAUGHT" if caught else "MISSED", b["id"], c, p.returncode, time.time() - t, "" if caught else p.stdout[-300:]), flush=True)


if __name__ == "__main__":
    all_ = bugs()
    ids = sys.argv[2:] or sorted(all_)
    ids = [i for i in all_ if any(i == x or (x.endswith("*") and i.startswith(x[:-1])) for x in ids)]
    worktree()
    try:
        for i in ids:
            for what in sys.argv[1].split(","):
                {"make": make, "confirm": confirm, "try": attempt}[what](all_[i])
    finally:
        drop()
