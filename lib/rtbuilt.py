"""Replays what TLC wrote from spec/MCBuilder.tla with the python and the javascript package; see rtreg.replay."""
import json, re, zlib
import rtgen, rtnet, rtnum

POOL = [{"type": "Input", "id": "in", "numPorts": 2}, {"type": "MovingAverage", "id": "ma", "n": 2}, {"type": "Minus", "id": "mi"},
        {"type": "Demultiplexer", "id": "dx", "numPorts": 1}, {"type": "Count", "id": "ma"}, {"type": "Input", "id": "in2", "numPorts": 1}]
META = {"title": "a title", "description": "what it does", "date": "2024-01-02", "author": "me <me@there.org>", "license": "MIT"}
BADOPS = [{"type": "Sum"}, {"id": 5}, {"type": "Scale"}, {"type": "Input", "numPorts": 0}]
E0 = rtgen.Embed()


def seq(x):
    return list(x) if isinstance(x, list) else []


def embed(b):
    k = zlib.crc32(json.dumps(b["hist"], sort_keys=True).encode())
    return rtgen.Embed((0, 2**40 + 5, 1700000000000)[k % 3], (1, 1000, 2**33)[k // 3 % 3]), k


NAMES = [{}, {"in": "a", "ma": "ab", "mi": "abc", "dx": "b", "in2": "abcd", "nobody": "ab_"}, {"in": "Zin", "ma": "Zi", "mi": "Z", "dx": "Zinc", "in2": "Zin2", "nobody": "i"}]


def named(x, names):
    if isinstance(x, str):
        return names.get(x, x)
    if isinstance(x, list):
        return [named(y, names) for y in x]
    if isinstance(x, dict):
        return {n: named(y, names) for n, y in x.items()}
    return x


def plan(b, side):
    e, k = embed(b)
    names = NAMES[k // 9 % 3]
    b = named(b, names)
    hist = []
    for a, _ in b["hist"]:
        if a[0] == "new":
            h = dict(META) if a[2] else {}
            if a[1]:
                h["entry"] = a[1]
            hist.append(["new", h])
        elif a[0] == "add":
            hist.append(["add", named(POOL[a[1] - 1], names)])
        elif a[0] == "addbad":
            hist.append(["addbad", BADOPS[k % 4]])
        elif a[0] == "output":
            hist.append(["output", {i: list(ps) for i, ps in a[1]}])
        else:
            hist.append(list(a))
    rows = [[[e.to(r[0])] + [rtnum.number(v) for v in r[1:]] for r in seq(d)] for d in b["rows"]]
    return {"hist": hist, "rows": rows}, (b, side, e, rows)


def described(b, side, got):
    """what the program says of itself"""
    if "ok" not in got:
        return "no json"
    g, p = got["ok"], b["prog"]
    have = lambda n: g.get(n) if g.get(n) != "" else None
    if [dict(o) for o in seq(p["ops"])] != g.get("operators"):
        return "operators"
    conns = [{"from": c[0], "fromPort": c[1], "to": c[2], "toPort": c[3]} for c in seq(p["conns"])]
    if conns != g.get("connections"):
        return "connections"
    if have("entryOperator") != (p["entry"] or None):
        return "entryOperator"
    if g.get("apiVersion") != "v1":
        return "apiVersion"
    if side == "py" and (g.get("output") or {}) != {i: list(ps) for i, ps in seq(p["filter"])}:
        return "output"
    for n, v in META.items():
        if have(n) != (v if b["meta"] else None):
            return n
    return None


def total(logs):
    r = {}
    for l in logs:
        for i, port, m in seq(l[1]):
            r.setdefault((i, port), []).append(m)
    return r


def agree(log, got, e):
    """the messages of a log, and the answer of the api"""
    return rtnet.same(rtnet.merged(seq(log)), {(i, p): [[m["time"], m["value"]] for m in ms] for i, o in got.items() for p, ms in o.items() if ms}, e)


def columns(got):
    """the columns of a run as messages by operator and port; None when they have another form"""
    r = {}
    for k, c in got.items():
        i, p = k.rsplit(":", 1)
        ts, vs = (c["time"], c["value"]) if isinstance(c, dict) else c
        if len(ts) != len(vs):
            return None
        if ts:
            r[(i, p)] = [list(x) for x in zip(ts, vs)]
    return r


def counted(got, n):
    return isinstance(got, dict) and "ok" in got and got["ok"] and got["ok"]["c"]["o1"][-1]["value"] == n


ARROW = re.compile(r'(\w+)\("(\w+)([^"]*)"\) --> \|(\w*):(\w*)\| (\w+)\("(\w+)([^"]*)"\)')


def drawn(b, got, bare):
    """an arrow for each connection, with the type and parameters of both operators and the ports; bare: those may be left out"""
    if "ok" not in got:
        return False
    left = ARROW.findall(got["ok"])
    if got["ok"].count("-->") != len(left):
        return False
    for f, fp, tp, t in seq(b["arrows"]):
        def fits(a):
            for o, (i, kind, more) in ((f, (a[0], a[1], a[2])), (t, (a[5], a[6], a[7]))):
                if i != o["id"] or kind != o["type"] or sorted(re.findall(r"[^(),\s]+", more)) != sorted(str(v) for k, v in o.items() if k not in ("id", "type")):
                    return False
            return a[3] in (fp, "" if bare and fp == "o1" else fp) and a[4] in (tp, "" if bare and tp == "i1" else tp)
        one = next((a for a in left if fits(a)), None)
        if one is None:
            return False
        left.remove(one)
    return not left


def judge(exp, res):
    b, side, e, rows = exp
    if isinstance(res, dict):
        open_ = any(r[0] == "any" for r in b["runs"])
        return None if open_ else {"crash": res["crash"]}
    n = len(b["hist"])
    for (a, want), (got, _) in zip(b["hist"], res):
        if want != got:
            return {"step": a, "want": want, "got": got}
    what = described(b, side, res[n - 1][1])
    if what:
        return {"described wrongly": what, "got": res[n - 1][1]}
    v = res[n]
    valid = v.get("ok", {}).get("valid")
    if valid is not (side == "js" or b["prog"]["entry"] != ""):
        return {"validate": v}
    if any(r[0] == "any" for r in b["runs"]) and b["runs"][-1][0] == "any":
        return None  # nothing is promised of such a program
    at = n + 1
    if side == "py":
        for k, d in enumerate(res[at]):
            if not drawn(b, d, k):
                return {"diagram": d, "of": b["arrows"]}
        at += 1
    f = (pyruns if side == "py" else jsruns)(b, e, rows, res, at)
    if f:
        return f
    at += len(rows) * (2 if side == "py" else 3)
    if not counted(res[at], len(rows) * (2 if side == "py" else 3) + 1):
        return {"another program": res[at]}
    what = described(b, side, res[at + 1])
    if what:
        return {"described wrongly after the runs": what, "got": res[at + 1]}
    return None


def result(want, run, e, take=columns):
    """a whole run"""
    if want[0] == "any":
        return True
    if want[0] == "refused" or any(l[0] == "fails" for l in seq(want[1])):
        return "err" in run
    if "ok" not in run:
        return False
    got = take(run["ok"])
    return got is not None and rtnet.same(total(seq(want[1])), got, e)


def pyruns(b, e, rows, res, at):
    for k, want in enumerate(b["runs"]):
        for j in range(2):
            run, alive, _ = res[at + 2 * k + j]
            if not result(want, run, e):
                return {"run": k, "rows": rows[k], "want": want, "got": run}
            if alive:
                return {"still registered after run": k, "rows": rows[k]}
    return None


def jsruns(b, e, rows, res, at):
    p = b["prog"]
    entry = [o for o in seq(p["ops"]) if o["id"] == p["entry"]]
    for k, want in enumerate(b["runs"]):
        (run1, alive1), (run2, alive2), (started, out, during, stopped, after) = res[at + 3 * k:at + 3 * k + 3]
        if not result(want, run1, e):
            return {"run": k, "rows": rows[k], "want": want, "got": run1}

        def extended(x):
            if len(x) != len(rows[k]):
                return None
            all_ = {}
            for row, log, y in zip(rows[k], want[1], x):
                sent = {"i%d" % (j + 1): [{"time": row[0], "value": v}] for j, v in enumerate(row[1:1 + entry[0].get("numPorts", 1)])}
                if y["in"] != sent or not agree(log[1], y["out"], e):
                    return None
                for i, o in y["out"].items():
                    for port, ms in o.items():
                        all_.setdefault((i, port), []).extend([m["time"], m["value"]] for m in ms)
            return {key: ms for key, ms in all_.items() if ms}
        if not result(want, run2, e, extended):
            return {"run, extended": k, "rows": rows[k], "want": want, "got": run2}
        if alive1 or alive2 or after:
            return {"still registered after run": k, "rows": rows[k]}
        if want[0] == "refused":
            if "err" not in started or during:
                return {"started": started, "during": during, "want": want}
            continue
        if "ok" not in started and "err" in started or not during or "err" in stopped:
            return {"started": started, "during": during, "stopped": stopped}
        ports = entry[0].get("numPorts", 1)
        if want[0] == "any" or any(len(r) - 1 > ports for r in rows[k]):
            continue
        for row, log, y in zip(rows[k], seq(want[1]), out + [None] * len(rows[k])):
            if y is None:
                return {"production": k, "row": row, "want": log, "got": None}
            if log[0] == "fails":
                if not any("err" in x for x in y):
                    return {"production": k, "row": row, "want": log, "got": y}
                break
            got = {}
            for x in y:
                if "ok" not in x:
                    return {"production": k, "row": row, "want": log, "got": y}
                for i, o in x["ok"].items():
                    for port, ms in o.items():
                        if ms:
                            got.setdefault((i, port), []).extend([m["time"], m["value"]] for m in ms)
            if len(y) != len(row) - 1 or not rtnet.same(rtnet.merged(seq(log[1])), got, e):
                return {"production": k, "row": row, "want": log, "got": y}
    return None
