"""Replays the behaviours of whole programs that TLC wrote (spec/MCNet.tla) on the real code."""
import json, random, zlib
from concurrent.futures import ProcessPoolExecutor
import rtgen, rtnum, rtrun, rttrace


def load(path):
    """(the wordings of each program, the lines of the behaviours)"""
    words, lines = {}, []
    with open(path) as f:
        for l in f:
            if '"programs"' in l:
                x = json.loads(l)
                words[x["words"]] = {"progs": [fix(p) for p in x["programs"]],
                                     "flat": {(a, b): tuple(c) for op in x["flat"] for a, b, c in op}}
            else:
                lines.append(l.rstrip("\n"))
    return words, lines


def fix(p):
    """records and sequences as rtgen has them"""
    def op(o):
        return dict(o, prog={"ops": [op(x) for x in seq(o["prog"]["ops"])], "conns": seq(o["prog"]["conns"])}) if "prog" in o else o
    return {"ops": [op(o) for o in seq(p["ops"])], "conns": seq(p["conns"]), "entry": p["entry"], "filter": seq(p["filter"])}


def seq(x):
    return list(x) if isinstance(x, list) else []


def types(p):
    r = set()
    for o in p["ops"]:
        r.add(o["type"])
        if "prog" in o:
            r |= types(o["prog"])
    return r


def embed(rng, p):
    ts = types(p)
    scale = 1 if "HermiteResampler" in ts else rng.choice([1, 3, 60000, 2**33 + 1])
    base = 0 if "TimeShift" in ts else rng.choice([-scale, 0, 2**32 + 5, 1700000000000])
    return rtgen.Embed(base, scale)


def merged(log):
    r = {}
    for i, p, m in log:
        r.setdefault((i, p), []).append(m)
    return r


def answer(x):
    """result of a command by key; None when it failed"""
    if isinstance(x, str):
        x = json.loads(x)
        return {(i, p): [[m["time"], m["value"]] for m in ms] for i, o in x.items() for p, ms in o.items() if ms}
    if not isinstance(x, dict) or ("err" in x and not isinstance(x["err"], dict)):
        return None
    return {(i, p): ms for i, o in x.items() for p, ms in o.items() if ms}


def same(want, got, e):
    if set(want) != set(got):
        return False
    for k, ms in want.items():
        if len(ms) != len(got[k]) or any(e.to(t) != gt or not rtnum.close(v, gv) for (t, v), (gt, gv) in zip(ms, got[k])):
            return False
    return True


def add(total, part):
    for k, ms in part.items():
        total.setdefault(k, []).extend(ms)


def someports(rng, prog):
    """a random selection of the output"""
    sel = []
    for o in rng.sample(prog["ops"], rng.randint(1, min(4, len(prog["ops"])))):
        n = rttrace.shape(o)[1]
        ports = ["o%d" % (k + 1) for k in range(n)]
        sel.append([o["id"], sorted(rng.sample(ports, rng.randint(1, n)) + rng.choice([[], [], [], [rng.choice(ports)]]))])
    return sorted(sel)


def plan(b, words, rng, how):
    """(commands, expectations): an expectation is (position of the command, what is expected since the previous one, how)"""
    w = words[b["words"]]
    prog, e = w["progs"][0], rtgen.Embed()
    ev, out, err = b["ev"], [merged(x) for x in seq(b["out"])], b["err"]
    key = lambda k: k
    n, exp = [], []
    if how in ("time", "restore", "filter", "entry", "bindings", "words") and rng.random() < 0.7:
        e = embed(rng, prog)
    if how == "words":
        prog = rng.choice([w["progs"][1], w["progs"][2], rttrace.permuted(rng, prog)])
    if how == "flat":
        prog = rng.choice([w["progs"][3], rttrace.flatten(prog)])
        key = lambda k: w["flat"][k]
    if how == "filter":
        prog = dict(prog, filter=someports(rng, prog))
    text = json.dumps(rtgen.prog_json(prog, e))
    msg = lambda p, t, v: {p: [[e.to(t), rtnum.number(v)]]}
    via = {"entry": "f", "bindings": "b"}.get(how)
    n.append([via + ".create", "p", text] if via else ["prog", "p", text])
    last = len(ev) - 1
    if how == "batch":
        total, k = {}, 0
        size = rng.choice([2, 3, 99])
        while k < len(ev):
            part = ev[k:k + size]
            if "Variable" in types(prog):
                # its answers depend on the order of arrival: only messages that come in the order of the ports
                part = part[:1 + next((j for j in range(len(part) - 1) if part[j][0] > part[j + 1][0]), len(part) - 1)]
            m = {}
            for p, t, v in part:
                m.setdefault(p, []).append([e.to(t), rtnum.number(v)])
            n.append(["recvd", "p", m])
            k += len(part)
            exp.append((len(n) - 1, None, "sum"))
        for x in out:
            add(total, x)
        exp.append((None, total, "total"))
        return e, n, exp, key
    for k, (p, t, v) in enumerate(ev):
        kind = err if k == last else ""
        if via:
            d = rng.choice(["map", "mapd"])
            if via == "f" and rng.random() < 0.5:
                d = rng.choice(["proc", "procd"])
                n.append(["f.add", "p", p, e.to(t), rtnum.number(v)])
                n.append(["f." + d, "p"])
            elif via == "b" and rng.random() < 0.7:
                d = rng.choice(["proc", "procd", "batch", "batchd", "native"])
                if d.startswith("proc"):
                    n += [["b.add", "p", p, e.to(t), rtnum.number(v)], ["b." + d, "p"]]
                elif d == "native":
                    n.append(["b.native", "p", msg(p, t, v)])
                else:
                    n.append(["b." + d, "p", [e.to(t)], [rtnum.number(v)], [p]])
            else:
                n.append([via + "." + d, "p", msg(p, t, v)])
        elif how == "filter":
            n.append(["recv", "p", msg(p, t, v)])
        else:
            n.append(["recvd", "p", msg(p, t, v)])
        want = out[k]
        if how == "filter":
            sel = {i: ports for i, ports in prog["filter"]}
            want = {q: ms for q, ms in want.items() if q[1] in sel.get(q[0], ())}
        exp.append((len(n) - 1, want, kind or ("sum" if how in ("words", "flat") else "each")))
        if how == "restore" and k < last:
            if rng.random() < 0.5:
                n += [["ser", "p", "b"], ["drop", "p"], ["unser", "p", "b"]]
            else:  # the original goes on as well, the copies are made one from another
                n += [["ser", "p", "b"], ["unser", "p", "b"], ["ser", "p", "c"], ["unser", "p", "c"]]
            exp += [(len(n) - j, None, "fine") for j in range(1, 4)]
    if how in ("words", "flat") and not err:
        total = {}
        for x in out:
            add(total, x)
        exp = [(a, None if how != "error" else None, "sum") for a, _, kind in exp] + [(None, {key(q): ms for q, ms in total.items()}, "total")]
    if via == "b":
        n.append(["b.del", "p"])
    return e, n, exp, key


def judge(exp, res, e, how, words, b):
    if isinstance(res, dict):
        return {"crash": res["crash"]}
    if isinstance(res[0], dict) or res[0] not in ("ok", ""):
        return {"create": res[0]}
    total = {}
    for at, want, kind in exp:
        if kind == "amb":
            return None
        if kind == "total":
            got = {k: v for k, v in total.items()}
            if how == "flat":
                got = {k: v for k, v in got.items() if k in want}
            return None if same(want, got, e) else {"want": show(want), "got": show(got)}
        if kind == "fine":
            if isinstance(res[at], dict):
                return {"at": at, "got": res[at]}
            continue
        got = answer(res[at])
        if kind == "error":
            return None if got is None else {"at": at, "want": "an error", "got": res[at]}
        if got is None:
            return {"at": at, "got": res[at]}
        if kind == "sum":
            add(total, got)
        elif not same(want, got, e):
            return {"at": at, "want": show(want), "got": res[at]}
    return None


def show(x):
    return {"%s:%s" % k: v for k, v in x.items()}


def chunk(arg):
    lines, exe, words, wanted, seed, keep = arg
    jobs, meta = [], []
    for l in lines:
        b = json.loads(l)
        rng = random.Random(zlib.crc32(l.encode()) ^ seed)
        for how in wanted:
            if keep < 1 and rng.random() > keep:
                continue
            if how in ("batch",) and b["err"]:
                continue
            e, n, exp, key = plan(b, words, rng, how)
            jobs.append({"cmds": n})
            meta.append((l, b, how, e, exp))
    res = rtrun.execute(exe, jobs, nproc=1)
    bad, stats, sample = [], {}, None
    for job, (l, b, how, e, exp), r in zip(jobs, meta, res):
        if rtrun.skipped(r):
            continue
        stats[how] = stats.get(how, 0) + 1
        f = judge(exp, r, e, how, words, b)
        if f:
            bad.append({"net": b["words"], "events": b["ev"], "variant": how, "base": e.base, "scale": e.scale, "failure": f, "line": l, "job": job})
        elif sample is None and any(b["out"]):
            sample = {"net": b["words"], "events": b["ev"], "emits": b["out"], "variant": how}
    return bad[:20], stats, sample, len(bad)


def replay(path, exe, wanted, seed, keep=1.0, limit=None):
    words, lines = load(path)
    total = len(lines)
    if limit and len(lines) > limit:
        lines = random.Random(seed).sample(lines, limit)
    n = max(1, min(64, len(lines) // 50 + 1))
    bad, stats, samples, nbad = [], {}, [], 0
    with ProcessPoolExecutor(8) as ex:
        for b, s, sm, nb in ex.map(chunk, [(lines[k::n], exe, words, wanted, seed, keep) for k in range(n)]):
            bad += b
            nbad += nb
            if sm:
                samples.append(sm)
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
    return {"behaviours": total, "replayed": len(lines), "runs": stats, "bad": bad, "nbad": nbad, "samples": samples[:2], "words": words}
