"""Builds the harness from the working tree of /repo, and the Java side of the specification."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar"
MODS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class BuildError(Exception):
    pass


def _files(*dirs):
    r = []
    for d in dirs:
        for base, _, fs in os.walk(d):
            r += [os.path.join(base, f) for f in fs]
    return sorted(r)


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "*")), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def java():
    src = sorted(glob.glob(os.path.join(VERIF, "spec/java/*.java")))
    d = os.path.join(BUILD, "java-" + _hash(src))
    if not os.path.exists(os.path.join(d, "done")):
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["javac", "-nowarn", "-d", d, "-cp", TLA] + src, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("javac: " + p.stderr)
        open(os.path.join(d, "done"), "w").close()
        _prune("java-", 2)
    return d


def schema():
    """rtbot/jsonschema.hpp, as tools/generator makes it from the front matter of the operators' documents"""
    import yaml
    schemas = []
    for f in sorted(glob.glob(REPO + "/libs/*/include/rtbot/*.md") + glob.glob(REPO + "/libs/*/include/rtbot/*/*.md")):
        text = open(f).read()
        if "---" not in text:
            continue
        s = yaml.safe_load(text.split("---")[1]).get("jsonschema")
        if not s:
            continue
        s["properties"]["type"] = {"enum": [os.path.basename(f).replace(".md", "")]}
        s["required"] = ["type"] + s["required"]
        schemas.append(s)
    t = open(REPO + "/tools/generator/templates/jsonschema.hbs").read()
    a = t.index("{{#each schemas}}")
    b = t.index("{{/each}}") + len("{{/each}}")
    return json.loads(t[:a] + ",".join(json.dumps(s) for s in schemas) + t[b:])


FLAGS = ("-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -include cstdint -include string -include cmath "
         "-include functional -include optional -include iostream").split()


def harness(bindings=False):
    """path of the executor, built from /repo's current sources"""
    libs = [f for f in _files(REPO + "/libs") if "/include/" in f or "/src/" in f]
    mine = [VERIF + "/harness/rtexec.cpp", VERIF + "/harness/stub/nlohmann/json-schema.hpp",
            REPO + "/tools/generator/templates/jsonschema.hbs"]
    key = _hash([f for f in libs if re.search(r"\.(h|hpp|cpp|md)$", f) and "/wrappers/" not in f] + mine, " ".join(FLAGS))
    d = os.path.join(BUILD, "h-" + key)
    exe = os.path.join(d, "rtexecb" if bindings else "rtexec")
    if os.path.exists(exe):
        os.utime(d)
        return exe
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp + "/gen/rtbot", exist_ok=True)
    inc = ["-I" + REPO + "/libs/" + x + "/include" for x in ("core", "std", "finance", "api")] + ["-I" + REPO + "/libs/core/include/rtbot"]
    jobs = {"core%d" % i: ([f], []) for i, f in enumerate(sorted(glob.glob(REPO + "/libs/api/src/*.cpp"))) if not f.endswith("bindings.cpp")}
    jobs["main"] = ([VERIF + "/harness/rtexec.cpp"], [])
    if bindings:
        s = json.dumps(schema())
        with open(tmp + "/gen/rtbot/jsonschema.hpp", "w") as f:
            f.write("#pragma once\n#include <nlohmann/json.hpp>\nstatic nlohmann::json rtbot_schema = nlohmann::json::parse(R\"RTS(" + s + ")RTS\");\n")
        extra = ["-I" + tmp + "/gen", "-I" + VERIF + "/harness/stub"]
        jobs["bind"] = ([REPO + "/libs/api/src/bindings.cpp"], extra)
        jobs["main"] = ([VERIF + "/harness/rtexec.cpp"], extra + ["-DWITH_BINDINGS"])

    def cc(item):
        name, (src, extra) = item
        o = tmp + "/" + name + ".o"
        p = subprocess.run(["g++"] + FLAGS + extra + inc + ["-c", "-o", o] + src, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("g++ " + src[0] + ":\n" + p.stderr[-3000:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, jobs.items()))
    p = subprocess.run(["g++", "-o", tmp + "/exe"] + objs, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("link: " + p.stderr[-3000:])
    os.makedirs(d, exist_ok=True)
    os.replace(tmp + "/exe", exe)
    shutil.rmtree(tmp, ignore_errors=True)
    _prune("h-", 10)
    return exe


if __name__ == "__main__":
    t = time.time()
    print(java(), round(time.time() - t, 1))
    print(harness(), round(time.time() - t, 1))
    print(harness(True), round(time.time() - t, 1))
