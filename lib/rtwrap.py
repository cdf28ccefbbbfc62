"""Builds what surrounds the engine from the working tree of /repo: the generated code, the functions that python and wasm
call, the python package, the javascript packages with the command line, and the registry of the rust library.
What stands in for libraries that are not installed is under harness/stub and harness/wrap."""
import glob, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import rtbuild
from rtbuild import BUILD, REPO, VERIF, BuildError, FLAGS, _files, _hash, _prune

WRAP = VERIF + "/harness/wrap"
NODE = "/opt/veriftools/node/node_modules"


class Broken(Exception):
    """something that the repository generates or loads at run time does not work"""


def _run(cmd, what, cwd=None, env=None, timeout=300, error=BuildError):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise error(what + ": no end")
    if p.returncode:
        raise error("%s:\n%s" % (what, (p.stdout + p.stderr)[-3000:]))
    return p


def _dir(prefix, key):
    return os.path.join(BUILD, prefix + key)


def _done(d, tmp, prefix, keep=4):
    if os.path.exists(d):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    _prune(prefix, keep)
    return d


def documents():
    return sorted(glob.glob(REPO + "/libs/core/include/rtbot/*.md")) + sorted(glob.glob(REPO + "/libs/std/include/rtbot/std/*.md"))


def generated():
    """directory with what tools/generator makes of the operators' documents: one directory for each target"""
    gen = [f for f in _files(REPO + "/tools/generator") if f.endswith((".ts", ".hbs"))]
    mine = [WRAP + "/node/" + f for f in ("yaml.js", "json-schema-to-zod.js", "json-schema-to-typescript.js", "prettier.js", "chalk.js")]
    d = _dir("gen-", _hash(gen + mine + documents() + [__file__]))
    if os.path.exists(d):
        os.utime(d)
        return d
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/tool/src")
    shutil.copytree(REPO + "/tools/generator/templates", tmp + "/tool/templates")
    _run([NODE + "/.bin/esbuild", "tools/generator/src/index.ts", "--bundle", "--platform=node", "--outfile=" + tmp + "/tool/src/index.js"]
         + ["--alias:%s=%s" % (os.path.basename(f)[:-3], f) for f in mine], "esbuild of the generator", cwd=REPO, env={"NODE_PATH": NODE})

    def one(target):
        os.makedirs(tmp + "/" + target)
        _run(["node", tmp + "/tool/src/index.js", "-s", " ".join(documents()), "-o", tmp + "/" + target, "-t", target],
             "the generator, target " + target, timeout=200, error=Broken)
        want = {"python": "jsonschema.py", "typescript": "index.ts", "cpp": "jsonschema.hpp", "jsonschema": "jsonschema.json", "markdown": ""}[target]
        if want and not os.path.exists(tmp + "/" + target + "/" + want):
            raise Broken("the generator wrote no " + want)
    try:
        with ThreadPoolExecutor(5) as ex:
            list(ex.map(one, ["python", "typescript", "cpp", "jsonschema", "markdown"]))
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return _done(d, tmp, "gen-")


def server(own_schema=True):
    """path of the server of the functions that are exposed to python and to wasm"""
    libs = [f for f in _files(REPO + "/libs") if ("/include/" in f or "/src/" in f) and re.search(r"\.(h|hpp|cpp)$", f)]
    libs += [REPO + "/libs/wrappers/python/rtbot.cpp", REPO + "/libs/api/wasm/emscripten-bindings.cpp"]
    if own_schema:
        hpp = open(generated() + "/cpp/jsonschema.hpp").read()
    else:
        hpp = "#pragma once\n#include <nlohmann/json.hpp>\nstatic nlohmann::json rtbot_schema = nlohmann::json::parse(R\"RTS(" + json.dumps(rtbuild.schema()) + ")RTS\");\n"
    d = _dir("api-", _hash(libs + _files(VERIF + "/harness/stub") + [VERIF + "/harness/apiserver.cpp"], hpp + " ".join(FLAGS)))
    if os.path.exists(d):
        os.utime(d)
        return d + "/apiserver"
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/gen/rtbot")
    with open(tmp + "/gen/rtbot/jsonschema.hpp", "w") as f:
        f.write(hpp)
    inc = ["-I" + tmp + "/gen", "-I" + VERIF + "/harness/stub"] + ["-I" + REPO + "/libs/" + x + "/include" for x in ("core", "std", "finance", "api")]
    inc += ["-I" + REPO + "/libs/core/include/rtbot"]
    src = sorted(glob.glob(REPO + "/libs/api/src/*.cpp")) + [REPO + "/libs/wrappers/python/rtbot.cpp", REPO + "/libs/api/wasm/emscripten-bindings.cpp",
                                                           VERIF + "/harness/apiserver.cpp"]

    def cc(item):
        k, f = item
        _run(["g++"] + FLAGS + inc + ["-c", "-o", "%s/%d.o" % (tmp, k), f], "g++ " + f)
    try:
        # the generated schema on its own first: it has to compile
        with open(tmp + "/s.cpp", "w") as f:
            f.write('#include "rtbot/jsonschema.hpp"\nint main() { return rtbot_schema.is_object() ? 0 : 1; }\n')
        if own_schema:
            _run(["g++"] + FLAGS + inc + ["-o", tmp + "/s", tmp + "/s.cpp"], "the generated jsonschema.hpp", error=Broken)
            _run([tmp + "/s"], "the generated jsonschema.hpp", error=Broken)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, enumerate(src)))
        _run(["g++", "-o", tmp + "/apiserver"] + glob.glob(tmp + "/*.o"), "link of the api server")
        for o in glob.glob(tmp + "/*.o"):
            os.remove(o)
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return _done(d, tmp, "api-") + "/apiserver"


def python():
    """command and environment of the driver of the python package"""
    exe = server()
    src = [REPO + "/libs/wrappers/python/rtbot.py", WRAP + "/py/rtbotapi.py", generated() + "/python/jsonschema.py"]
    d = _dir("py-", _hash(src))
    if not os.path.exists(d):
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp + "/rtbot")
        for f, to in zip(src, ("__init__.py", "rtbotapi.py", "operators.py")):
            shutil.copyfile(f, tmp + "/rtbot/" + to)
        _done(d, tmp, "py-")
    env = {"PYTHONPATH": d, "RT_API": exe, "PYTHONDONTWRITEBYTECODE": "1"}
    _run(["python3", "-c", "import rtbot.operators"], "the python package", env=env, timeout=200, error=Broken)
    return ["python3", WRAP + "/py/driver.py"], env


def node():
    """command and environment of the driver of the javascript packages"""
    exe = server()
    gen = generated()
    ts = [f for f in _files(REPO + "/libs/wrappers/javascript/src", REPO + "/apps/cli/src") if f.endswith(".ts") and not f.endswith((".spec.ts", ".d.ts"))]
    d = _dir("js-", _hash(ts + _files(WRAP + "/node") + [gen + "/typescript/index.ts"]))
    if not os.path.exists(d):
        tmp = d + ".%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(REPO + "/libs/wrappers/javascript/src", tmp + "/rtbot")
        shutil.copyfile(gen + "/typescript/index.ts", tmp + "/rtbot/generated.ts")
        shutil.copytree(REPO + "/apps/cli/src", tmp + "/cli")
        w = WRAP + "/node/"
        alias = {"@rtbot-dev/rtbot": tmp + "/rtbot/index.ts", "@rtbot-dev/wasm": w + "wasm.js", "@cli": tmp + "/cli", "neo-blessed-seen": w + "blessed.js",
                 "blessed": w + "blessed.js", "neo-blessed": w + "blessed.js", "zod": NODE + "/zod/v3", "nanoid": w + "nanoid.js",
                 "class-transformer": w + "class-transformer.js", "zustand/vanilla": w + "zustand-vanilla.js", "immer": w + "immer.js",
                 "papaparse": w + "papaparse.js", "commander": w + "commander.js"}
        _run([NODE + "/.bin/esbuild", w + "driver.js", "--bundle", "--platform=node", "--outfile=" + tmp + "/driver.js", "--log-level=error",
              "--tsconfig-raw={\"compilerOptions\":{\"experimentalDecorators\":true}}"] + ["--alias:%s=%s" % x for x in alias.items()],
             "esbuild of the javascript packages", env={"NODE_PATH": NODE})
        shutil.rmtree(tmp + "/rtbot")
        shutil.rmtree(tmp + "/cli")
        _done(d, tmp, "js-")
    env = {"RT_API": exe, "RT_SCHEMA": gen + "/jsonschema/jsonschema.json"}
    return ["python3", WRAP + "/node/run.py", d + "/driver.js"], env


def crates(wanted={"serde_json": '"1"', "thiserror": '"2"'}):
    """the crates that come with the toolchain: (folder with their dependencies, path of each)"""
    toml = '[package]\nname = "deps"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + "".join("%s = %s\n" % x for x in wanted.items())
    d = _dir("crates-", _hash([], toml))
    if not os.path.exists(d + "/paths.json"):
        tmp = d + ".%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/src")
        open(tmp + "/src/lib.rs", "w").close()
        with open(tmp + "/Cargo.toml", "w") as f:
            f.write(toml)
        p = _run(["cargo", "build", "--offline", "--message-format=json"], "cargo", cwd=tmp, env={"CARGO_TARGET_DIR": tmp + "/target"}, timeout=600)
        paths = {}
        for l in p.stdout.splitlines():
            m = json.loads(l)
            name = m["target"]["name"].replace("-", "_") if m.get("reason") == "compiler-artifact" else None
            if name in wanted or (name or "").replace("_", "-") in wanted:
                paths[name] = [os.path.basename(f) for f in m["filenames"] if f.endswith(".rlib")][0]
        os.rename(tmp + "/target/debug/deps", tmp + "/deps")
        shutil.rmtree(tmp + "/target")
        with open(tmp + "/paths.json", "w") as f:
            json.dump(paths, f)
        _done(d, tmp, "crates-", 4)
    with open(d + "/paths.json") as f:
        return d + "/deps", {k: d + "/deps/" + v for k, v in json.load(f).items()}


def _rustc(tmp, deps, paths):
    def rustc(name, src, use, kind="rlib"):
        ext = []
        for u in use:
            ext += ["--extern", "%s=%s" % (u, paths.get(u, "%s/lib%s.rlib" % (tmp, u)))]
        _run(["rustc", "--edition", "2021", "-A", "warnings", "-C", "debug-assertions=on", "-C", "opt-level=1", "--crate-type", kind, "--crate-name", name, "-L", tmp, "-L", deps,
              "-o", tmp + ("/driver" if kind == "bin" else "/lib%s.rlib" % name)] + ext + [src], "rustc " + src)
    return rustc


def rust():
    """path of the driver of the registry of pipelines and of the redis module"""
    deps, paths = crates()
    apps = REPO + "/apps/rtbot-rs/src", REPO + "/apps/redis-module/src"
    d = _dir("rs-", _hash([f for f in _files(*apps) if f.endswith(".rs")] + _files(WRAP + "/rust") + [__file__]))
    if os.path.exists(d):
        os.utime(d)
        return d + "/driver"
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    for a, name in zip(apps, ("rtbot_rs", "redis_rtbot")):
        shutil.copytree(a, tmp + "/src/" + name)
    w = WRAP + "/rust/"
    shutil.copyfile(w + "cxx_bindings.rs", tmp + "/src/rtbot_rs/cxx_bindings.rs")

    rustc = _rustc(tmp, deps, paths)
    try:
        rustc("nanoid", w + "nanoid/lib.rs", [])
        rustc("jsonschema", w + "jsonschema/lib.rs", ["serde_json"])
        rustc("redis_module", w + "redis-module/lib.rs", [])
        rustc("rtbot_rs", tmp + "/src/rtbot_rs/lib.rs", ["nanoid", "thiserror"])
        rustc("redis_rtbot", tmp + "/src/redis_rtbot/lib.rs", ["nanoid", "thiserror", "serde_json", "jsonschema", "redis_module", "rtbot_rs"])
        rustc("driver", w + "driver/main.rs", ["serde_json", "redis_module", "rtbot_rs", "redis_rtbot"], "bin")
        for x in glob.glob(tmp + "/*.rlib"):
            os.remove(x)
        shutil.rmtree(tmp + "/src")
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return _done(d, tmp, "rs-") + "/driver"


def rust_server():
    """path of the driver of apps/rtbot-server"""
    deps, paths = crates({"tokio": '{ version = "1", features = ["full"] }', "futures-util": '{ version = "0.3", default-features = false, features = ["sink", "std"] }',
                          "serde": '{ version = "1", features = ["derive"] }', "serde_json": '"1"', "thiserror": '"1"', "log": '"0.4"', "url": '"2"'})
    app, w = REPO + "/apps/rtbot-server/src", WRAP + "/rust/"
    d = _dir("srv-", _hash([f for f in _files(app) if f.endswith(".rs")] + _files(WRAP + "/rust") + [__file__]))
    if os.path.exists(d):
        os.utime(d)
        return d + "/driver"
    tmp = d + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(app, tmp + "/src")
    with open(tmp + "/src/main.rs", "a") as f:
        f.write("\npub fn rt_main() -> String {\n    match main() {\n        Ok(_) => String::new(),\n        Err(e) => e.to_string(),\n    }\n}\n")
    rustc = _rustc(tmp, deps, paths)
    try:
        rustc("nanoid", w + "nanoid/lib.rs", [])
        rustc("world", w + "server/world.rs", ["serde_json"])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: rustc(x[0], w + "server/%s.rs" % x[0], x[1]), [
                ("redis", ["world", "tokio", "futures_util"]), ("tokio_tungstenite", ["world", "tokio", "futures_util"]), ("config", ["world", "serde", "serde_json"]), ("glob", []),
                ("pretty_env_logger", []), ("jsonpath_rust", ["world", "serde_json"]), ("warp", ["world", "tokio", "futures_util", "serde", "serde_json"])]))
        rustc("rtbot_server", tmp + "/src/main.rs", ["nanoid", "redis", "tokio_tungstenite", "config", "glob", "pretty_env_logger", "jsonpath_rust", "warp", "tokio", "futures_util",
                                                     "serde", "serde_json", "thiserror", "log", "url"])
        rustc("driver", w + "server/main.rs", ["world", "serde_json", "rtbot_server"], "bin")
        for x in glob.glob(tmp + "/*.rlib"):
            os.remove(x)
        shutil.rmtree(tmp + "/src")
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return _done(d, tmp, "srv-") + "/driver"


if __name__ == "__main__":
    import time
    for f in (generated, server, python, node, rust, rust_server):
        t = time.time()
        print(f.__name__, f(), round(time.time() - t, 1))
