"""Replays what TLC wrote from spec/MCCli.tla on the store of the debugger and on its screen."""
import json, math, re


def seq(x):
    return list(x) if isinstance(x, list) else []


GIVEN = {}


def given(path):
    """the line with the data; the others are histories"""
    with open(path) as f:
        lines = f.read().splitlines()
    (g,) = [json.loads(l) for l in lines if '"data"' in l]
    with open(path, "w") as f:
        # every history comes with what it needs
        for l in lines:
            if '"data"' not in l:
                b = json.loads(l)
                at = lambda k: [g["progs"][k - 1], g["data"][k - 1]]
                f.write(json.dumps(dict(b, ops=g["progs"][b["d"] - 1], runs={k: at(k) for k in {b["d"], b["d0"]}})) + "\n")


def plan(b, side):
    def load(d):
        ops, data = b["runs"][str(d)]
        rows = []
        for row in seq(data):
            out = {}
            for i, p, ms in seq(row):
                out.setdefault(i, {})[p] = [{"time": t, "value": float(v)} for t, v in ms]
            rows.append({"in": {}, "out": out})
        return ["init", ops, rows]
    if b["d"] != b["d0"] and side == "screen":
        # the screen shows one run
        return None
    steps = [load(b["d0"])] + [load(a[1]) if a[0] == "load" else list(a) for a in b["hist"]]
    return {("tour" if side == "store" else "screen"): steps}, (b, side)


def number(v):
    """as the debugger shows a value"""
    x = math.floor(float(v) * 100 + 0.5) / 100
    return str(int(x)) if x == int(x) else repr(x)


def cell(ms):
    return [(str(t), number(v)) for t, v in seq(ms)]


def judge(exp, res):
    b, side = exp
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    for a, r in zip(b["hist"], res[1:]):
        if r[0]:
            return {"action": a, "error": r[0]}
    got = res[-1][1]
    t = b["table"]
    several = {o["id"] for o in b["ops"] if o.get("numPorts", 2 if o["type"] == "Join" else 1) > 1}
    want = [["iter"] + [i + ":" + p if i in several else i for i, p in seq(t["headers"])]]
    if not got or got[0] != want[0]:
        return {"header": got and got[0], "want": want[0]}
    rows = seq(t["rows"])
    if [r[0] for r in got[1:]] != [str(r["at"]) for r in rows]:
        return {"iterations": [r[0] for r in got[1:]], "want": [r["at"] for r in rows]}
    for r, w in zip(got[1:], rows):
        cells = [[] if x == "-" else [tuple(m) for m in re.findall(r"\((-?[\d.e+]+), (-?[\d.e+]+)\)", x)] for x in r[1:]]
        if cells != [cell(x) for x in seq(w["cells"])] or any(x.count("(") != len(c) for x, c in zip(r[1:], cells)):
            return {"row": r, "want": w}
    if side == "store":
        if res[-1][2] != b["pos"]:
            return {"iteration": res[-1][2], "want": b["pos"]}
    return None
