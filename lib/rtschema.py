"""Replays the documents that TLC wrote (spec/MCSchema.tla) on the generated schemas: the json one, the one that is compiled in (through
the python package) and the one of the javascript package."""
import json
import rtmade


def plan(b, side):
    text = "{" + ", ".join('"%s": %s' % (f, t) for f, t in b["doc"] if t != "absent") + "}"
    return {"check": [text]}, (b, side, text)


def judge(exp, res):
    b, side, text = exp
    if isinstance(res, dict):
        return {"document": text, "crash": res["crash"]}
    got = res[0]
    if side == "js":
        if b["js"] != "open" and got != [b["js"] == "yes"] * 2:
            return {"document": text, "expected": b["js"], "got": got}
        return None
    if got[0] is not b["yes"] or (not b["yes"] and got[1] != "refused"):
        return {"document": text, "expected": b["yes"], "got": got}
    if rtmade.schema().is_valid(json.loads(text)) != b["yes"]:
        return {"document": text, "expected": b["yes"], "json schema": not b["yes"]}
    return None
