"""Replays what TLC wrote from spec/MCDebug.tla with the debug command; see rtreg.replay."""
import json
import rtcli, rtgen, rtnet, rtnum
from rtcli import seq

E = rtgen.Embed()


def plan(b, side):
    f, way = b["file"], b["way"]
    if f > 0:
        p = b["prog"]
        program = json.dumps({"apiVersion": "v1", "title": "p", "entryOperator": p["entry"], "operators": p["ops"],
                              "connections": [{"from": c[0], "fromPort": c[1], "to": c[2], "toPort": c[3]} for c in seq(p["conns"])]})
    else:
        program = {-1: None, -2: '{"apiVersion": "v1", ', -3: '{"title": "none"}'}[f]
    options = []
    if b["scales"][0]:
        options += ["--scale-time-factor", b["scales"][0]]
    if b["scales"][1]:
        options.append("--scale-value-factor=" + b["scales"][1])
    if "verbose" in way:
        options.append("-v")
    if "show" in way:
        options.append("-i")
    return {"command": [{"program": program, "data": None if b["gone"] else "\n".join(b["rows"]), "output": way[0] == "file", "options": options}]}, b


def judge(b, res):
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    (err, code, said, written, shown, right), = res
    want, way = b["result"], b["way"]
    texts = []
    for s in said:
        try:
            x = json.loads(s)
        except ValueError:
            continue
        if isinstance(x, list):
            texts.append(x)
    if want["what"] == "refused":
        if not err and not code:
            return {"refused": "no error", "said": said[:3]}
        if written is not None or texts or shown:
            return {"refused": "but written", "written": written, "texts": texts, "shown": shown}
        return None
    if err or code:
        return {"error": err, "code": code, "said": said[-3:]}
    logs = [l[1] for l in seq(want["logs"])]
    sent = [[m[0], m[1]] for m in seq(want["sent"])]
    if way[0] == "show":
        if written is not None or texts:
            return {"shown": "but written", "written": written}
        ids = [o["id"] + (":o%d" % (k + 1) if o.get("numPorts", 1) > 1 else "") for o in b["prog"]["ops"] for k in range(o.get("numPorts", 1))]
        if shown != [["iter"] + ids]:
            return {"shown": shown, "want": ids}
        if [r[0] for r in right] != ["iter"] + [str(k) for k in range(min(len(sent), 11))]:
            return {"shown after a step": right}
        for r, l in zip(right[1:], logs):
            for i, c in zip(ids, r[1:]):
                key = (i.split(":")[0], i.split(":")[1] if ":" in i else "o1")
                ms = rtnet.merged(seq(l)).get(key, [])
                w = ", ".join("(%d, %s)" % (t, rtcli.number(rtnum.number(v))) for t, v in ms) or "-"
                if c != w:
                    return {"shown": c, "want": w, "operator": key, "row": r}
        return None
    if way[0] == "file":
        if written is None or "ok" not in written or texts:
            return {"written": written, "texts": texts}
        got = written["ok"]
    else:
        if written is not None or len(texts) != 1:
            return {"written": written, "texts": texts}
        got = texts[0]
    if len(got) != len(sent):
        return {"rows": len(got), "want": len(sent)}
    for k, (g, s, l) in enumerate(zip(got, sent, logs)):
        m = {"time": s[0], "value": rtnum.number(s[1])}
        if g["in"] != {"i1": [m]}:
            return {"row": k, "sent": g["in"], "want": m}
        have = {(i, p): [[x["time"], x["value"]] for x in ms] for i, o in g["out"].items() for p, ms in o.items() if ms}
        if not rtnet.same(rtnet.merged(seq(l)), have, E):
            return {"row": k, "out": g["out"], "want": l}
    return None
