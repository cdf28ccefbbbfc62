"""Replays the behaviours of single operators that TLC wrote (spec/MCOp.tla) on the real operators."""
import json, math, random, zlib
from concurrent.futures import ProcessPoolExecutor
import rtgen, rtnum, rtrun

# these send the values they receive on, without computing with them
PASS = {"Input", "Output", "Join", "Demultiplexer", "Identity", "TimeShift", "Variable", "PeakDetector", "LessThan", "GreaterThan",
        "EqualTo", "GreaterThanStream", "LessThanStream", "ConstantResampler"}
SPECIAL = [-1.7976931348623157e308, -1e300, -12345678.901234567, -1.1, -5e-324, 0.0, 2.2250738585072014e-308, 1e-9, 0.1, 1.0 / 3,
           1.0000000000000002, 16777217.0, 9007199254740993.0, 1e22, 1.7976931348623157e308]


def valmap(c, ev, rng):
    """a strictly increasing map from the values of the specification to arbitrary doubles, for the data ports"""
    from fractions import Fraction
    vals = {e[2] for e in ev if e[0][0] == "i"}
    if "value" in c and c["type"] != "Variable":
        vals.add(c["value"])
    vals = sorted(vals, key=Fraction)
    if len(vals) > len(SPECIAL):
        return None
    to = sorted(rng.sample(SPECIAL, len(vals)))
    return dict(zip(vals, to))


def variants(c, ev, rng, wanted):
    """(name, embedding, map of values, how)"""
    t = c["type"]
    out = []
    last, increasing = {}, t != "Input"
    for p, u, _ in ev:
        increasing = increasing and u > last.get(p, -1)
        last[p] = u
    for w in wanted:
        e = rtgen.Embed()
        if w == "time" or w == "restore" and rng.random() < 0.5:
            scale = 1 if t == "HermiteResampler" else rng.choice([1, 3, 60000, 2**33 + 1])
            base = 0 if t == "TimeShift" else rng.choice([-scale, 0, 2**32 + 5, 1700000000000, 1700000000000000000 if scale == 1 else 7])
            e = rtgen.Embed(base, scale)
        if w == "value" and t not in PASS:
            continue
        if w == "program" and not increasing:
            continue  # the entry of the program would not let them pass
        out.append((w, e))
    return out


def commands(c, ev, w, e, vm):
    j = rtgen.cfg_json(c, e)
    value = lambda p, v: vm[v] if vm is not None and p[0] == "i" else rtnum.number(v)
    if vm is not None and "value" in c and c["type"] in ("LessThan", "GreaterThan", "EqualTo"):
        j["value"] = vm[c["value"]]
    if w == "program":
        ports = sorted({"i%d" % (k + 1) for k in range(rtgen.nin(c))} | {"c%d" % (k + 1) for k in range(
            c["numPorts"] if c["type"] == "Demultiplexer" else 1 if c["type"] == "Variable" else 0)})
        n = len(ports)
        prog = {"entryOperator": "in", "operators": [j, {"type": "Input", "id": "in", "numPorts": n}],
                "connections": [{"from": "in", "fromPort": "o%d" % (k + 1), "to": "x", "toPort": p} for k, p in enumerate(ports)]}
        at = {p: "i%d" % (k + 1) for k, p in enumerate(ports)}
        return [["prog", "p", json.dumps(prog)]] + [["recvd", "p", {at[p]: [[e.to(t), value(p, v)]]}] for p, t, v in ev], 1, 1
    cmds = [["op", "x", j]]
    if w == "rewrite":
        cmds.append(["rewrite", "x"])
    first, step = len(cmds), 1
    for p, t, v in ev:
        cmds.append(["m", "x", p, e.to(t), value(p, v)])
        if w == "restore":
            cmds += [["collect", "x", "b"], ["op", "x", j], ["restore", "x", "b"]]
            step = 4
    return cmds, first, step


def merge(out):
    r = {}
    for port, ms in out:
        r.setdefault(port, []).extend(ms)
    return {k: v for k, v in r.items() if v}


def same(c, want, got, e, vm, err):
    """whether one answer of the code is the one of the specification"""
    if isinstance(got, dict) and "err" in got:
        return err == "error"
    if err == "error" or not isinstance(got, dict):
        return False
    g = {k: v for k, v in got.get("x", {}).items() if v}
    if set(got) - {"x", "in"}:
        return False
    if set(g) != set(want):
        return False
    for port, ms in want.items():
        if len(ms) != len(g[port]):
            return False
        for (t, v), (gt, gv) in zip(ms, g[port]):
            if e.to(t) != gt:
                return False
            if vm is not None:
                if v in vm:
                    if isinstance(gv, str) or gv != vm[v]:
                        return False
                elif not rtnum.exact(v, gv):
                    return False
            elif c["type"] in PASS:
                if not rtnum.exact(v, gv):
                    return False
            elif not rtnum.close(v, gv):
                return False
    return True


def chunk(arg):
    lines, exe, wanted, seed, keep = arg
    jobs, meta = [], []
    for l in lines:
        b = json.loads(l)
        rng = random.Random(zlib.crc32(l.encode()) ^ seed)
        c, ev = b["c"], b["ev"]
        vs = variants(c, ev, rng, wanted)
        if keep < 1:
            vs = [v for v in vs if v[0] == "plain" or rng.random() < keep]
        for w, e in vs:
            vm = valmap(c, ev, rng) if w == "value" or w == "restore" and c["type"] in PASS and rng.random() < 0.7 else None
            if w == "value" and vm is None:
                continue
            cmds, first, step = commands(c, ev, w, e, vm)
            jobs.append({"cmds": cmds})
            meta.append((l, b, w, e, vm, first, step))
    res = rtrun.execute(exe, jobs, nproc=1)
    bad, stats, sample = [], {}, None
    for job, (l, b, w, e, vm, first, step), r in zip(jobs, meta, res):
        if rtrun.skipped(r):
            continue
        stats[w] = stats.get(w, 0) + 1
        fail = None
        if isinstance(r, dict):
            fail = {"crash": r["crash"]}
        else:
            for i in range(first):
                if isinstance(r[i], dict) and "err" in r[i]:
                    fail = {"command": job["cmds"][i], "got": r[i]}
            for k in range(len(b["out"])):
                last = k == len(b["out"]) - 1
                err = b["err"] if last else ""
                if err == "amb":
                    break
                if fail:
                    break
                got = r[first + k * step]
                want = merge(b["out"][k])
                if not same(b["c"], want, got, e, vm, err):
                    fail = {"event": k + 1, "sent": job["cmds"][first + k * step], "want": want if err == "" else err, "got": got}
                    if vm:
                        fail["values"] = vm
                    break
                if w == "restore" and any(isinstance(x, dict) and "err" in x for x in r[first + k * step + 1:first + k * step + 4]):
                    fail = {"event": k + 1, "restore": r[first + k * step + 1:first + k * step + 4]}
        if fail:
            bad.append({"operator": b["c"], "events": b["ev"], "variant": w, "base": e.base, "scale": e.scale, "failure": fail, "line": l,
                        "job": job})
        elif sample is None and any(b["out"]):
            sample = {"operator": b["c"], "events": b["ev"], "emits": b["out"], "variant": w}
    return bad[:20], stats, sample, len(bad)


def replay(path, exe, wanted, seed, keep=1.0, limit=None):
    with open(path) as f:
        lines = f.read().splitlines()
    total = len(lines)
    if limit and len(lines) > limit:
        lines = random.Random(seed).sample(lines, limit)
    n = max(1, min(64, len(lines) // 50 + 1))
    bad, stats, samples, nbad = [], {}, [], 0
    with ProcessPoolExecutor(8) as ex:
        for b, s, sm, nb in ex.map(chunk, [(lines[k::n], exe, wanted, seed, keep) for k in range(n)]):
            bad += b
            nbad += nb
            if sm:
                samples.append(sm)
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
    return {"behaviours": total, "replayed": len(lines), "runs": stats, "bad": bad, "nbad": nbad, "samples": samples[:2]}
