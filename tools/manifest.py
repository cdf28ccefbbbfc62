"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, sys
sys.path.insert(0, "/verif/lib")
import checks
T = "TLA+ specification checked with TLC; its behaviours replayed on the real code and recorded sessions of the real code validated by TLC"
NOTE = {
    "op": "TLC explores every behaviour of the bounded instances (spec/OpCases.tla) and shows that the operational layer has the meaning of the declarative one; "
          "the behaviours are replayed on the real operators, also with other origins and scales of time, extreme values and inside a program; random sessions of "
          "larger programs recorded from the real code are validated by TLC. Bounded and sampled: no proof for unbounded streams. Trusts the numbers of RtNum.java and the executor.",
}
CUSTOM = getattr(checks, "NOTES", {})
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
m = {"version": 1, "setup_cmd": "python3-vt lib/rtbuild.py && (python3-vt lib/rtwrap.py || true)",
     "checks": [], "not_applicable": []}
for i in sorted(props):
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt bin/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3-vt bin/check.py " + i, "evidence_file": "evidence/%s.json" % i,
                            "technique": CUSTOM.get(i, {}).get("technique", T), "level": "model_checking",
                            "level_note": CUSTOM.get(i, {}).get("note", NOTE["op"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: the check is being built"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
