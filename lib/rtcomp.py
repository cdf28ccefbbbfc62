"""Replays the histories of a Composite that TLC wrote (spec/MCComposite.tla) on the real one; see rtreg.replay."""
import rtgen, rtnet, rtnum

E0 = rtgen.Embed()


def plan(b, side):
    cmds, exp = [["comp.new", "k"]], []
    for a, ok in b["hist"]:
        cmds.append(["comp.op", "k", rtgen.cfg_json(a[1], E0)] if a[0] == "create" else ["comp.conn", "k"] + a[1:])
        exp.append((len(cmds) - 1, "does" if ok else "refuses", a))
    cmds.append(["shape", "k"])
    exp.append((len(cmds) - 1, "shape", b["ports"]))
    cmds += [["op", "ext", {"type": "Count", "id": "ext"}], ["connect", "k", "o1", "ext", "i1"]]
    exp.append((len(cmds) - 1, "does" if b["ports"]["out"] else "refuses", "connect to the outside"))
    for (p, t, v), want in zip(b["msgs"], b["answers"]):
        if b["ports"]["in"]:
            cmds.append(["m", "k", p, t, rtnum.number(v)])
        else:
            cmds.append(["d", "k", p, t, rtnum.number(v)])
        exp.append((len(cmds) - 1, "answer", want))
    return cmds, exp


def judge(exp, res):
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    for at, kind, want in exp:
        got = res[at]
        failed = isinstance(got, dict) and isinstance(got.get("err"), str)
        if kind == "does":
            ok = not failed and got is not False
        elif kind == "refuses":
            ok = failed or got is False
        elif kind == "shape":
            ok = not failed and all(sorted(got[k]) == sorted(want[k]) for k in want)
        elif want[0] == "fails":
            ok = failed
        else:
            ok = not failed and rtnet.same(rtnet.merged(want[1]), rtnet.answer(got), E0)
        if not ok:
            return {"expected": kind, "of": want, "got": got}
    return None
