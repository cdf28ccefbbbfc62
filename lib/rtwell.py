"""Replays the sound and unsound programs that TLC wrote (spec/MCWellFormed.tla) on the real code; see rtreg.replay."""
import json
import rtgen, rtnet, rtnum

E0 = rtgen.Embed()


def graph(p):
    """json of operators and connections, without what is gone"""
    ops, conns = [], []
    for o in p["ops"]:
        sub = o.get("prog")
        j = rtgen.cfg_json({k: v for k, v in o.items() if k != "prog"}, E0)
        if sub is not None:
            j["prog"] = graph(sub)
        ops.append(j)
    for k in rtnet.seq(p["conns"]):
        conns.append(rtgen.conn_json(k))
    r = {"operators": ops, "connections": conns}
    if "entry" in p:
        r["entryOperator"] = p["entry"]
    for what, i in rtnet.seq(p.get("gone")):
        if what in ("from", "to") and i <= len(conns):
            conns[i - 1].pop(what, None)
        elif what in ("id", "type") and i <= len(ops):
            ops[i - 1].pop(what, None)
        elif what in ("operators", "connections", "entryOperator"):
            r.pop(what, None)
    return r


def pipes(p):
    return any("prog" in o for o in p["ops"])


def plan(b, side):
    p = b["prog"]
    if side == "b" and pipes(p):
        return None
    text = "" if ["text", 0] in rtnet.seq(p.get("gone")) else json.dumps(graph(p))
    c = lambda name, *args: [side + "." + name, "p"] + list(args)
    cmds = ([["f.new", ""], ["prog", "p", text], ["drop", "p"]] if side == "f" else [["b.del", "p"], ["b.validate", text], ["b.del", "p"]])
    cmds += [c("create", text), c("entry"), c("ports")]
    if b["run"]:
        for port, t, v in b["msgs"][:len(b["answers"])]:
            cmds.append(c("mapd", {port: [[t, rtnum.number(v)]]}))
    cmds.append(c("del"))
    return cmds, (b, side, text)


def failed(x):
    return isinstance(x, dict) and isinstance(x.get("err"), str)


def judge(exp, res):
    b, side, text = exp
    if isinstance(res, dict):
        return {"program": text, "crash": res["crash"]}

    def no(want, k):
        return {"program": text, "expected": want, "got": res[k]}
    if side == "f" and failed(res[1]) == b["ok"]:
        return no("created: %s" % b["ok"], 1)
    refused = failed(res[3]) or res[3] != ""
    if refused == b["ok"]:
        return no("created: %s" % b["ok"], 3)
    if not b["ok"]:
        if not failed(res[4]) and res[4] != "":
            return no("no program", 4)
        return None if res[-1] in (False, "0", "false") else no("no program", len(res) - 1)
    if res[4] != b["prog"]["entry"]:
        return no(b["prog"]["entry"], 4)
    ports = json.loads(res[5]) if isinstance(res[5], str) else res[5]
    if sorted(ports) != sorted(rtnet.seq(b["ports"])):
        return no(b["ports"], 5)
    if b["run"]:
        for k, want in enumerate(b["answers"]):
            got = res[6 + k]
            if want[0] == "fails":
                if not failed(got):
                    return no("error", 6 + k)
            elif failed(got) or not rtnet.same(rtnet.merged(rtnet.seq(want[1])), rtnet.answer(got) or {}, E0):
                return no(want[1], 6 + k)
    return None if res[-1] in (True, "1", "true") else no("deleted", len(res) - 1)
