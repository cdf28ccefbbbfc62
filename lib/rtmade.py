"""Replays the configurations of operators that TLC wrote (spec/MCConfig.tla) on what tools/generator makes: the classes of python and
of javascript, the schema in json and the one that is compiled in."""
import json
import jsonschema
import rtconf, rtwrap

_schema = []


def schema():
    if not _schema:
        with open(rtwrap.generated() + "/jsonschema/jsonschema.json") as f:
            s = json.load(f)
        _schema.append(jsonschema.Draft7Validator(s))
    return _schema[0]


def plan(b, side):
    j = {"type": b["type"]}
    if b["id"] == "given":
        j["id"] = "an id"
    for k, v in b["params"]:
        if v["k"] != "none":
            j[k] = rtconf.value(v)
    return {"make": [j]}, (b, side, j)


def judge(exp, res):
    b, side, j = exp
    if isinstance(res, dict):
        return {"operator": j, "crash": res["crash"]}
    got = res[0]
    if ("ok" in got) != b["valid"]:
        return {"operator": j, "expected": "made" if b["valid"] else "refused", "got": got}
    prog = {"apiVersion": "v1", "operators": [j], "connections": [], "entryOperator": "an id"}
    if schema().is_valid(prog) != b["valid"]:
        return {"operator": j, "expected": "valid: %s" % b["valid"], "schema says": [e.message for e in schema().iter_errors(prog)][:2]}
    if not b["valid"]:
        return None
    g, given = got["ok"], dict(j)
    filled = {k: rtconf.value(v) for k, v in (b["written"] or b["params"]) if v["k"] != "none"}
    for k in filled:
        # what is left out is left to the default, or filled in with it
        if k not in given and k not in g:
            continue
        if k not in g or not rtconf.equal(g[k], filled[k]):
            return {"operator": j, "parameter": k, "got": g}
    if set(g) - set(filled) - {"id", "type"} or g.get("id") != "an id" or g.get("type") != b["type"]:
        return {"operator": j, "got": g}
    return None
