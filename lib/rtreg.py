"""Replays the histories of the registry that TLC wrote (spec/MCRegistry.tla) on FactoryOp and on the bindings."""
import json, random, zlib
from concurrent.futures import ProcessPoolExecutor
import rtgen, rtnet, rtnum, rtrun

E0 = rtgen.Embed()
OPS = [
    {"ops": [{"type": "Input", "id": "in", "numPorts": 1}, {"type": "CumulativeSum", "id": "sum"}, {"type": "Count", "id": "cnt"}],
     "conns": [["in", "o1", "sum", "i1"], ["sum", "o1", "cnt", "i1"]], "entry": "in", "filter": []},
    {"ops": [{"type": "Input", "id": "src", "numPorts": 2}, {"type": "Minus", "id": "dif"}],
     "conns": [["src", "o1", "dif", "i1"], ["src", "o2", "dif", "i2"]], "entry": "src", "filter": [["dif", ["o1"]]]}]


def bad(how):
    j = rtgen.prog_json(OPS[0], E0)
    if how == "nojson":
        return json.dumps(j)[:-2]
    if how == "noentry":
        j["entryOperator"] = "nobody"
    if how == "notype":
        j["operators"][1]["type"] = "Sum"
    if how == "noconn":
        j["connections"].append({"from": "in", "to": "nobody"})
    if how == "ctlentry":
        j["operators"].append({"type": "Variable", "id": "var", "value": 1})
        j["entryOperator"] = "var"
    return json.dumps(j)


def embed(b):
    """how the times of a history look to the code"""
    k = zlib.crc32(json.dumps(b, sort_keys=True).encode())
    return rtgen.Embed((0, 2**40 + 5, 1700000000000)[k % 3], (1, 1000, 2**33)[k // 3 % 3])


# any text names a program
NAMES = [("p", "q"), ("p", "q"), ("prog", "Prog"), ("p", "p "), ("a", "ab"), ("\u00e9", "e"), ("7", "07"), ("x" * 300, "x" * 299 + "y"), ("p/q", "p\nq"), ("null", "true")]


def names(b):
    return dict(zip(("p", "q"), NAMES[zlib.crc32(json.dumps(b["hist"]).encode()) % len(NAMES)]))


def msgs(batch, e=E0):
    return {p: [[e.to(t), rtnum.number(v)] for t, v in ms] for p, ms in batch}


def translate(a, side, e=E0, named={}):
    """commands for an operation; the last one answers"""
    k, i = a[0], named.get(a[1], a[1])
    c = lambda name, *args: [side + "." + name, i] + list(args)
    d = lambda x: "d" if x else ""
    if k == "create":
        return [c("create", json.dumps(rtgen.prog_json(OPS[a[2] - 1], E0)))]
    if k == "bad":
        return [c("create", bad(a[2]))]
    if k == "bytes":
        return [c("bytes", "slot")]
    if k == "save":
        return [c("ser", "slot")]
    if k == "del":
        return [c("del")]
    if k == "add":
        return [c("add", a[2], e.to(a[3]), rtnum.number(a[4]))]
    if k == "proc":
        return [c("proc" + d(a[2]))]
    if k == "map":
        return [c("map" + d(a[3]), msgs(a[2], e))]
    if k == "batch":
        es = a[2]
        if side == "b":
            return [c("batch" + d(a[3]), [e.to(x[1]) for x in es], [rtnum.number(x[2]) for x in es], [x[0] for x in es])]
        return [c("add", x[0], e.to(x[1]), rtnum.number(x[2])) for x in es] + [c("proc" + d(a[3]))]
    raise ValueError(k)


def empty(x):
    if isinstance(x, str):
        try:
            x = json.loads(x)
        except ValueError:
            return False
    return x in ({}, [], None, "")


def failed(x):
    return isinstance(x, dict) and isinstance(x.get("err"), str)


def agrees(a, want, got, e=E0):
    k = a[0]
    if want[0] == "any":
        return True
    if want[0] == "refused":
        if failed(got):
            return True
        if k in ("bad",):
            return isinstance(got, str) and got != ""
        return k in ("proc", "map", "batch", "add") and empty(got) and got != ""
    if want[0] == "fails":
        return failed(got)
    if failed(got):
        return False
    if want[0] == "ok":
        return got == "" if k == "create" else got in (True, "1", "true") if k == "add" else True
    if want[0] in ("true", "false"):
        return got in ((True, "1", "true") if want[0] == "true" else (False, "0", "false"))
    if want[0] == "log":
        g = rtnet.answer(got) if not empty(got) else {}
        return g is not None and rtnet.same(rtnet.merged(want[1]), g, e)
    raise ValueError(want)


def plan(b, side):
    e, named = embed(b), names(b)
    cmds, exp = [[side + ".new", ""]] if side == "f" else [], []
    # the registry of the bindings is one for the process: start from an empty one
    if side == "b":
        cmds += [["b.del", i] for i in named.values()]
    for a, r in b["hist"]:
        cmds += translate(a, side, e, named)
        exp.append((len(cmds) - 1, a, r, e))
    for x in b["probe"]:
        i = named.get(x["id"], x["id"])
        for name in ("entry", "ports", "filter"):
            cmds.append([side + "." + name, i])
            exp.append((len(cmds) - 1, ["info", i, name], x["info"], e))
        cmds.append([side + ".procd", i])
        exp.append((len(cmds) - 1, ["proc", i, True], x["pending"], e))
        cmds.append([side + ".mapd", i, msgs(x["sent"], e)])
        exp.append((len(cmds) - 1, ["map", i, x["sent"], True], x["got"], e))
    return cmds, exp


def judge(exp, res):
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    for at, a, want, e in exp:
        got = res[at]
        if a[0] == "info":
            if want[0] == "refused":
                ok = failed(got) or empty(got)
            else:
                w = want[1][a[2]]
                if a[2] == "filter":
                    w = {i: ports for i, ports in w}
                if isinstance(got, str) and a[2] != "entry":
                    got = json.loads(got)
                ok = got == w or (not got and not w)
        else:
            ok = agrees(a, want, got, e)
        if not ok:
            return {"operation": a, "want": want, "got": got}
    return None


def chunk(arg):
    lines, exe, sides, mod = arg
    mod = __import__(mod)
    jobs, meta = [], []
    for l in lines:
        b = json.loads(l)
        for side in sides:
            x = mod.plan(b, side)
            if x is None:
                continue
            cmds, exp = x
            jobs.append(cmds if isinstance(cmds, dict) else {"cmds": cmds})
            meta.append((l, b, side, exp))
    res = rtrun.execute(exe, jobs, nproc=1)
    bad, sample = [], None
    for job, (l, b, side, exp), r in zip(jobs, meta, res):
        if rtrun.skipped(r):
            continue
        f = mod.judge(exp, r)
        if f:
            bad.append({"history": b.get("hist", b), "side": side, "failure": f, "line": l, "job": job})
        elif sample is None and len(b.get("hist", "long")) >= 4:
            sample = {"history": b.get("hist", b), "side": side}
    return bad[:20], len(jobs), sample, len(bad)


def replay(path, exe, sides, seed, limit, mod="rtreg"):
    prepare = getattr(__import__(mod), "given", None)
    if prepare:
        prepare(path)
    with open(path) as f:
        lines = f.read().splitlines()
    total = len(lines)
    if len(lines) > limit:
        rng = random.Random(seed)
        lines = rng.sample(lines, limit)
    n = max(1, min(64, len(lines) // 50 + 1))
    bad, runs, samples, nbad = [], 0, [], 0
    with ProcessPoolExecutor(8) as ex:
        for b, r, sm, nb in ex.map(chunk, [(lines[k::n], exe, sides, mod) for k in range(n)]):
            bad += b
            runs += r
            nbad += nb
            if sm:
                samples.append(sm)
    return {"behaviours": total, "replayed": len(lines), "runs": runs, "bad": bad, "nbad": nbad, "samples": samples[:1]}
