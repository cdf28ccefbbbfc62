"""Replays what TLC wrote from spec/MCRust.tla and spec/MCRedis.tla on the registry of pipelines and on the redis module."""
import json, re, zlib


def seq(x):
    return list(x) if isinstance(x, list) else []


def hashed(b):
    return zlib.crc32(json.dumps(b["hist"], sort_keys=True).encode())


def doc(kind, unit):
    if kind == "notjson":
        return '{"title": "sum", '
    j = {"title": "%s unit=%r" % (kind, unit), "entryNode": "in", "operators": [{"id": "in", "type": "Input"}], "connections": []}
    if kind == "noentry":
        del j["entryNode"]
    return json.dumps(j)


def parts(v, j):
    """a message of one or more values, of the sum given"""
    return [[v], [v], [v - 4, 4.0], [4.0, v - 8, 4.0]][j % 4]


def plan(b, side):
    k = hashed(b)
    base, scale = (0, 2**40 + 5, 1700000000000)[k % 3], (1, 1000, 2**33)[k // 3 % 3]
    time = lambda t: base + scale * t
    # sums of values stay exact; single precision does not hold them
    unit = (1.0, -0.375, 2097153 / 8192)[k // 27 % 3]
    n = []
    if side == "registry":
        # keys with what redis allows in them
        names = [{"a": "a", "b": "b", "x": "x", "y": "y", "c": "c", "z": "z"}, {"a": "in:{1}", "b": "in:{1}:2", "x": "out", "y": "out:{1}", "c": "in", "z": "out:"},
                 {"a": "x", "b": "", "x": "x", "y": "x x", "c": "x:x", "z": ""},
                 {"a": "key", "b": "KEY", "x": "Out", "y": "out", "c": "key ", "z": "o" * 300}][k // 9 % 4]
        for j, (a, _) in enumerate(b["hist"]):
            if a[0] == "create":
                n.append(["create", doc(a[1], unit), names[a[2]], names[a[3]]])
            elif a[0] == "recv":
                n.append(["recv", names[a[1]], time(a[2]), parts(a[3] * unit, j)])
            else:
                n.append([a[0]] + [names[x] for x in a[1:]])
        n.append(["alive"])
        n += [["recv", names[i], time(60), parts(unit, 0)] for i, _ in b["got"]]
        return {"cmds": n}, (b, side, time, names, unit)
    names = [{"a": "a", "b": "b", "c": "c"}, {"a": "k:1", "b": "k:10", "c": "k"}, {"a": "K", "b": "k", "c": "k "}][k // 9 % 3]
    n = [["doc", "doc:" + d, doc(d, unit)] for d in ("sum", "even", "twice", "raw", "refused", "noentry", "notjson")]
    at = []
    for a, _ in b["hist"]:
        at.append(len(n) + (a[2] - 1 if a[0] == "adds" else 0))
        if a[0] == "add":
            n.append(["ts.add", names[a[1]], str(time(a[2])), str(a[3] * unit)])
        elif a[0] == "adds":
            n += [["ts.add", names[a[1]], str(time(t)), str((1 + t % 2) * unit)] for t in range(1, a[2])]
            n.append(["ts.add", names[a[1]], str(time(a[2])), str((1 + a[2] % 2) * unit)])
        else:
            more = {"once": [], "once2": ["false"], "keep": ["true"], "xrun": [], "unclear": ["maybe"]}[a[4]]
            keys = [names[x] for x in a[2:4] if x]
            n.append(["rtbot.xrun" if a[4] == "xrun" else "rtbot.run", "doc:" + a[1]] + keys + more)
    n.append(["look"])
    n += [["ts.add", names["b"], str(time(b["after"][0])), str(unit)], ["ts.add", names["a"], str(time(b["after"][1])), str(3 * unit)], ["look"]]
    return {"redis": n}, (b, side, time, names, unit, at)


def judge(exp, res):
    b, side, time, names, unit = exp[:5]
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    if side == "registry":
        ids = {}
        for j, ((a, want), got) in enumerate(zip(b["hist"], res)):
            f = step(a, want, got, time, names, unit, j)
            if f:
                return f
            if a[0] == "create" and want[0] == "ok":
                ids[(a[2], a[3])] = got["ok"]
        n = len(b["hist"])
        alive = sorted(ids[(i, o)] for i, os in b["alive"] for o in seq(os))
        if res[n]["wrong"] or sorted(res[n]["alive"]) != alive or len(set(alive)) != len(alive):
            return {"in the engine": res[n], "want": alive}
        for (i, want), got in zip(b["got"], res[n + 1:]):
            f = step(["recv", i], want, got, time, names, unit, 0)
            if f:
                return f
        return None
    for (a, want), got in zip(b["hist"], [res[x] for x in exp[5]]):
        if ("ok" in got) != (want == "ok"):
            return {"operation": a, "want": want, "got": got}
    at = exp[5][-1] + 1 if exp[5] else 7
    for want, got, when in ((b["now"], res[at], "now"), (b["later"], res[at + 3], "after more samples")):
        series = {names[k]: [[time(t), v * unit] for t, v in seq(x["at"])] for k, x in want["series"] if x["is"]}
        if {k: v for k, v in got["series"]} != series:
            return {"series": got["series"], "want": series, "when": when}
        for k, said in want["said"]:
            have = [m for c, m in got["published"] if c == names[k] + ":ps"]
            if [[float(x) for x in m.split(",")] for m in have] != [[float(time(t)), v * unit] for t, v in seq(said)]:
                return {"published": have, "want": said, "key": k, "when": when}
        if got["wrong"] or got["alive"] != want["alive"]:
            return {"in the engine": got["alive"], "wrong": got["wrong"], "want": want["alive"], "when": when}
        if len(got["published"]) != sum(len(seq(x[1])) for x in want["said"]):
            return {"published": got["published"], "want": want["said"], "when": when}
    return None


def step(a, want, got, time, names, unit, j):
    ok = {"ok": lambda: "ok" in got, "refused": lambda: "err" in got,
          "count": lambda: "ok" in got and str(want[1]) in re.findall(r"\d+", got["ok"]),
          "got": lambda: got.get("ok") == sorted([names[o], [[time(t), [v * unit, len(parts(0, j))]] for t, v in seq(ms)]] for o, ms in seq(want[1]))}[want[0]]()
    return None if ok else {"operation": a, "want": want, "got": got}
