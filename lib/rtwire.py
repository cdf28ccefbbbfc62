"""Replays on real operators, connected by hand, what TLC wrote from spec/MCWire.tla; see rtreg.replay."""
import random, zlib, json
import rtgen, rtnet, rtnum


def plan(b, side):
    ops = [rtnet.fix({"ops": [o], "conns": [], "entry": "", "filter": []})["ops"][0] for o in b["ops"]]
    e = rtnet.embed(random.Random(zlib.crc32(json.dumps(b["hist"]).encode())), {"ops": ops, "conns": []})
    cmds, exp = [], []
    for o in ops:
        cmds.append(["op", o["id"], rtgen.cfg_json(o, e)])
        exp.append((len(cmds) - 1, "does", None, e))
    send = lambda i, kind, p, t, v: cmds.append(["d" if kind == "data" else "c", i, p, e.to(t), rtnum.number(v)])
    for a, r in b["hist"]:
        if a[0] == "connect":
            cmds.append(["connect"] + a[1:])
        else:
            send(*a[1:])
        exp.append((len(cmds) - 1, r[0], r[1] if len(r) > 1 else a, e))
    for o, n in zip(ops, b["ops"]):
        cmds.append(["shape", o["id"]])
        exp.append((len(cmds) - 1, "shape", o, e))
    for x in rtnet.seq(b["probes"]):
        m = x[0]
        send(ops[m[0] - 1]["id"], *m[1:])
        exp.append((len(cmds) - 1, x[1], x[2] if len(x) > 2 else None, e))
    return cmds, exp


def judge(exp, res):
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    for at, kind, want, e in exp:
        got = res[at]
        failed = isinstance(got, dict) and isinstance(got.get("err"), str)
        if kind == "amb":
            return None
        if kind == "does":
            ok = not failed and got is not False
        elif kind in ("refuses", "error"):
            ok = failed or got is False
        elif kind == "shape":
            if want["type"] == "Pipeline":
                continue
            n = {"in": rtgen.nin(want), "out": rtgen.nout(want),
                 "ctl": want["numPorts"] if want["type"] == "Demultiplexer" else 1 if want["type"] == "Variable" else 0}
            ok = not failed and all(sorted(got[k]) == sorted(k[0] + str(j + 1) for j in range(n[k])) for k in n)
        else:
            ok = not failed and rtnet.same(rtnet.merged(want), rtnet.answer(got), e)
        if not ok:
            return {"expected": kind, "of": want, "got": got, "at": at}
    return None
