"""Replays what TLC wrote from spec/MCServer.tla on apps/rtbot-server."""
import json
from rtrust import hashed, seq

CONFIGS = [
    {"timestamp": "$.T", "values": ["$.p", "$.q"]},
    {},
    {"timestamp": None, "values": ["$.data.price"]},
    {"timestamp": "$.data.at"},
    {"values": ["$.a.b", "$.c"]},
]
PROGRAM = '{"title": "t", "entryNode": "in", "operators": [{"id": "in", "type": "Input"}], "connections": []}'
NUMBERS = ["1.5", "-0.25", "3e2", "17", "0", "0.1", "-1e-3"]


def put(j, path, v):
    keys = path[2:].split(".")
    for k in keys[:-1]:
        j = j.setdefault(k, {})
    j[keys[-1]] = v


def payload(kind, c, time, value, n):
    times = c.get("timestamp", "$.timestamp")
    values = c.get("values", ["$.value"])
    j = {"e": "trade", "n": n}
    if times and kind != "notime":
        put(j, times, time)
    if kind == "notime" and times is None:
        kind = "novalue"
    for k, p in enumerate(values):
        if kind == "novalue":
            continue
        put(j, p, ("words" if kind == "words" else "666" if kind == "refused" else value) if k == 0 else str(n + k))
    if kind == "more":
        j["more"] = [value, {"x": time}]
    s = json.dumps(j)
    return s[:-1] if kind == "notjson" else s


def plan(b, side):
    h = hashed(b)
    c = CONFIGS[h % len(CONFIGS)]
    base, scale = [(0, 1), (1700000000000, 1000), (2**53, 2)][h // 5 % 3]
    time = lambda k: base + scale * k
    value = lambda k: NUMBERS[(h + k) % len(NUMBERS)]
    config = {"url": "http://localhost", "rtbot": {"program": {"json": PROGRAM}}}
    if b["way"] != "noredis":
        config["redis"] = {"url": "redis://localhost:6379"}
    if b["way"] != "noinput":
        config["input_ws"] = {"url": "wss://somewhere/ws", "operator_id": "i1", "json_remap": c}
    steps, gets, results, n = [], [], [], 0

    def send(kind, k):
        steps.append(["in", kind if kind in ("ping", "binary") else "text", payload("good" if kind in ("ping", "binary") else kind, c, time(k), value(k), k)])

    def publish():
        k = len(results) + 1
        r = [str(time(k))] + [NUMBERS[(h + k + j) % len(NUMBERS)] for j in range(1 + (h >> 8 + k) % 3 % 2)]
        results.append(r)
        steps.append(["pub", ",".join(r)])
    for k, a in enumerate(b["hist"]):
        # not everything waits until what came before has gone through
        if a[0] in ("connect", "stall", "leave") or (h >> (8 + k)) % 2:
            steps.append(["settle"])
        if a[0] == "in":
            send(a[1], a[2])
        elif a[0] == "ins":
            for j in range(a[1]):
                send("good", a[2] + j)
        elif a[0] == "pub":
            for _ in range(a[1]):
                publish()
        elif a[0] == "get":
            path = ["/health-check", "/nothing", ][a[1] - 1]
            steps.append(["get", path])
            gets.append(a[1])
        else:
            steps.append(a)
    steps += [["settle"], ["look"]]
    for i, at in enumerate(seq(b["now"]["at"])):
        if at == "stalled":
            steps.append(["resume", i + 1])
    if b["way"] == "all":
        send("good", b["late"])
        publish()
    steps += [["settle"], ["look"]]
    return {"config": config, "steps": steps, "null": h % 2 == 1}, (b, c, time, value, results, gets)


def judge(exp, res):
    b, c, time, value, results, gets = exp
    if isinstance(res, dict):
        return {"way": b["way"], "history": b["hist"], "crash": res["crash"]}
    bad = lambda **k: dict(k, way=b["way"], history=b["hist"], remap=c)
    if any(isinstance(r, dict) and "failed" in r for r in res):
        return bad(failed=res[-1])
    looks = [r for r in res if isinstance(r, dict)]
    said = [r for r in res if isinstance(r, list)]
    want = [[200, "Server OK"] if g == 1 else [404, None] for g in gets]
    if [[s, x if s == 200 else None] for s, x in said] != want:
        return bad(answers=said, expected=want)
    if len(looks) != 2:
        return bad(answers=res)
    for look, w in zip(looks, (b["now"], b["later"])):
        calls = look["calls"]
        if b["way"] == "noredis":
            if calls or look["subs"]:
                return bad(commands=calls)
            start, keys = [], None
        else:
            start, rest = calls[:3], calls[3:]
            x = [l for l in start if l[0] == "RTBOT.XRUN"]
            if len(start) < 3 or len(x) != 1 or len(x[0]) != 4 or len(set(x[0][1:])) != 3:
                return bad(commands=calls)
            program, series, output = x[0][1:]
            create = [l for l in start if l[0] == "TS.CREATE"]
            store = [l for l in start if l[0] == "JSON.SET"]
            if start[2] != x[0] or create != [["TS.CREATE", series, "DUPLICATE_POLICY", "LAST"]] or store != [["JSON.SET", program, "$", PROGRAM]]:
                return bad(commands=calls)
            added = seq(w["added"])
            if len(rest) != len(added):
                return bad(samples=rest, expected=added)
            for l, (kind, k) in zip(rest, added):
                # without a place for the time it is the time of arrival
                t = int(l[2]) if len(l) == 4 and l[2].isdigit() else -1
                right = t > 1500000000000 if c.get("timestamp", 1) is None else t == time(k)
                if l[:2] != ["TS.ADD", series] or len(l) != 4 or not right or float(l[3]) != float(value(k)):
                    return bad(sample=l, expected=[time(k), value(k)])
            if b["way"] == "all" and look["subs"] != [output + ":ps"]:
                return bad(subscribed=look["subs"])
        for i, (frm, till) in enumerate(seq(w["got"])):
            got = [json.loads(m) for m in look["got"][i]]
            expected = [{"timestamp": int(r[0]), "values": r[1:]} for r in results[frm:till]]
            if got != expected:
                return bad(client=i + 1, got=got, expected=expected)
    return None
