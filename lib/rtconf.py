"""Replays the configurations of operators that TLC wrote (spec/MCConfig.tla) on the real code; see rtreg.replay."""
import json
import rtnum


def value(v):
    if v["k"] == "num":
        return rtnum.number(v["v"])
    return [value(x) for x in v["es"]] if v["k"] == "arr" else v["v"]


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return a == b and type(a) == type(b)


def plan(b, side):
    if side == "f" and b["what"] == "open":
        return None  # nothing is promised
    j = {"type": b["type"]}
    if b["id"] == "given":
        j["id"] = "an id"
    for k, v in b["params"]:
        if v["k"] != "none":
            j[k] = value(v)
    prog = {"operators": [{"type": "Input", "id": "in"}, j], "connections": [], "entryOperator": "in"}
    text = json.dumps(prog)
    if side == "b":
        cmds = [["b.validateop", b["type"], json.dumps(j)], ["b.validate", text], ["b.create", "p", text], ["b.entry", "p"], ["b.del", "p"]]
    else:
        cmds = [["op", "x", j], ["write", "x"], ["rewrite", "x"], ["write", "x"], ["shape", "x"], ["prog", "p", text], ["getprog", "p"],
                ["f.create", "p", text], ["f.entry", "p"]]
    return cmds, (b, side, j)


def failed(x):
    return isinstance(x, dict) and isinstance(x.get("err"), str)


def judge(exp, res):
    b, side, j = exp
    if isinstance(res, dict):
        return {"operator": j, "crash": res["crash"]}

    def no(why, k):
        return {"operator": j, "expected": why, "got": res[k]}
    if side == "b":
        for k in (0, 1):
            if failed(res[k]) or json.loads(res[k]).get("valid") is not b["valid"]:
                return no("valid: %s" % b["valid"], k)
        refused = failed(res[2]) or res[2] != ""
        if (not b["valid"] or b["what"] == "refused") and not refused:
            return no("refused", 2)
        if b["valid"] and b["what"] == "created" and refused:
            return no("created", 2)
        if (failed(res[3]) or res[3] != "in") != refused:
            return no("a program exactly when it was created", 3)
        return None
    if b["what"] == "refused":
        for k in (0, 5):
            if not failed(res[k]):
                return no("refused", k)
        if not failed(res[7]) and res[7] == "":
            return no("refused", 7)
        return None if failed(res[8]) else no("no program", 8)
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        if failed(res[k]):
            return no("created", k)
    want = {"type": b["type"], "id": "an id", **{k: value(v) for k, v in b["written"]}}
    for k in (1, 2, 3):
        got = json.loads(res[k])
        if set(got) != set(want) or any(not equal(got[x], want[x]) for x in want):
            return no(want, k)
    i, c, o = b["ports"]
    names = lambda p, n: sorted("%s%d" % (p, x + 1) for x in range(n))
    if sorted(res[4]["in"]) != names("i", i) or sorted(res[4]["ctl"]) != names("c", c) or sorted(res[4]["out"]) != names("o", o):
        return no({"in": i, "ctl": c, "out": o}, 4)
    got = json.loads(res[6])
    if not isinstance(got, list) or len(got) != 2 or not any(x.get("id") == "an id" and set(x) == set(want) and all(equal(x[y], want[y]) for y in want) for x in got):
        return no(want, 6)
    return None
