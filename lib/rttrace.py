"""Runs random sessions on the real code, records what it returns and has TLC validate the recording (spec/TraceProg.tla)."""
import json, random, shutil, tempfile
import rtgen, rtrun, rtnum
from rtgen import prog_json, cfg_json, conn_json


def permuted(rng, prog):
    """the same program, declared in another order"""
    ops, conns = list(prog["ops"]), list(prog["conns"])
    rng.shuffle(ops)
    rng.shuffle(conns)

    def inner(o):
        if o["type"] != "Pipeline":
            return o
        p = permuted(rng, {"ops": o["prog"]["ops"], "conns": o["prog"]["conns"]})
        return dict(o, prog={"ops": p["ops"], "conns": p["conns"]})
    return dict(prog, ops=[inner(o) for o in ops], conns=conns)


def flatten(prog):
    """the same program with the operators of its pipelines in their place (one level of nesting at a time)"""
    while any(o["type"] == "Pipeline" for o in prog["ops"]):
        i = [k for k, o in enumerate(prog["ops"]) if o["type"] == "Pipeline"][0]
        pipe = prog["ops"][i]
        inner = pipe["prog"]
        ins, outs = ports(inner)
        name = lambda x: pipe["id"] + "_" + x
        ops = prog["ops"][:i] + [dict(o, id=name(o["id"])) for o in inner["ops"]] + prog["ops"][i + 1:]
        conns = [[name(k[0]), k[1], name(k[2]), k[3]] for k in inner["conns"]]
        for f, fp, t, tp in prog["conns"]:
            if f == pipe["id"]:
                o = outs[int(fp[1:] or 1) - 1] if fp else outs[0]
                f, fp = name(o[0]), o[1]
            if t == pipe["id"]:
                o = ins[int(tp[1:]) - 1] if tp else ins[0]
                t, tp = name(o[0]), o[1]
            conns.append([f, fp, t, tp])
        prog = dict(prog, ops=ops, conns=conns)
    return prog


def shape(o):
    if o["type"] == "Pipeline":
        i, u = ports(o["prog"])
        return len(i), len(u)
    return rtgen.nin(o), rtgen.nout(o)


def ports(inner):
    """free inputs and outputs of the program of a pipeline, in their order"""
    by = {o["id"]: o for o in inner["ops"]}
    ui = {(k[2], k[3] or "i1") for k in inner["conns"]}
    uo = {(k[0], k[1] or "o1") for k in inner["conns"]}
    ins = [(o["id"], "i%d" % (k + 1)) for o in inner["ops"] for k in range(shape(o)[0])]
    outs = [(o["id"], "o%d" % (k + 1)) for o in inner["ops"] for k in range(shape(o)[1])]
    key = lambda x: x[0] + ":" + x[1]
    return sorted([x for x in ins if x not in ui], key=key), sorted([x for x in outs if x not in uo], key=key)


def messages(e, batch):
    return {p: [[e.to(t), rtnum.number(v)] for t, v in ms] for p, ms in batch}


def commands(prog, steps, e, mode, rng, name="p"):
    """(commands, for each step the position of the command that answers it)"""
    text = json.dumps(prog_json(prog, e))
    n, where = [], []
    if mode == "program":
        n.append(["prog", name, text])
    elif mode == "factory":
        n.append(["f.create", name, text])
    elif mode == "bindings":
        n.append(["b.create", name, text])
    elif mode == "composite":
        # some operators may be outside, behind the output of the composite
        outer = set(prog.get("outer", ()))
        n.append(["composite", name, {"ops": [cfg_json(o, e) for o in prog["ops"] if o["id"] not in outer],
                                      "conns": [k for k in prog["conns"] if k[2] not in outer]}])
        n += [["op", o["id"], cfg_json(o, e)] for o in prog["ops"] if o["id"] in outer]
        n += [["connect", k[0] if k[0] in outer else name, k[1], k[2], k[3]] for k in prog["conns"] if k[2] in outer]
    for s in steps:
        if s["k"] == "save":
            if mode == "program":
                n += [["ser", name, "b"], ["drop", name], ["unser", name, "b"]]
            elif mode == "factory":
                n += [["f.ser", name, "b"], ["f.del", name], ["f.bytes", name, "b"]]
            elif mode == "bindings":
                n += [["b.ser", name, "b"], ["b.del", name], ["b.bytes", name, "b"]]
            where.append(None)
            continue
        m = messages(e, s["batch"])
        d = "d" if s["dbg"] else ""
        if mode == "program":
            n.append(["recv" + d, name, m])
        elif mode == "composite":
            (p, ms), = m.items()
            n.append(["m", name, p] + ms[0])
        else:
            f = mode[0] + "."
            how = rng.choice(["map", "buffer"] + (["batch", "native"] if mode == "bindings" else []))
            if how == "native" and d:
                how = "map"
            if how == "map":
                n.append([f + "map" + d, name, m])
            elif how == "native":
                n.append(["b.native", name, m])
            else:
                # one after another, ports interleaved at random
                todo = {p: list(ms) for p, ms in m.items()}
                seq = []
                while todo:
                    p = rng.choice(sorted(todo))
                    seq.append((p, todo[p].pop(0)))
                    if not todo[p]:
                        del todo[p]
                if how == "buffer":
                    n += [[f + "add", name, p, t, v] for p, (t, v) in seq]
                    n.append([f + "proc" + d, name])
                else:
                    n.append(["b.batch" + d, name, [x[1][0] for x in seq], [x[1][1] for x in seq], [x[0] for x in seq]])
        where.append(len(n) - 1)
    if mode == "bindings":
        n.append(["b.del", name])
    return n, where


def plain(r):
    """results of the bindings are json text with objects for messages"""
    if isinstance(r, str):
        r = json.loads(r)
        return {i: {p: [[m["time"], m["value"]] for m in ms] for p, ms in o.items()} for i, o in (r or {}).items()}
    return r


def record(steps, where, res, e, rename=None, drop=()):
    """the steps with their results, or None when the session could not even start"""
    out = []
    for s, w in zip(steps, where):
        if s["k"] == "save":
            out.append(s)
            continue
        r = res[w]
        if isinstance(r, dict) and "err" in r and not isinstance(r["err"], dict):
            out.append(dict(s, res=[], err=1))
            break
        r = plain(r)
        lst = []
        for i, o in r.items():
            for p, ms in o.items():
                if ms:
                    lst.append([i, p, [[e.back(t), v if isinstance(v, str) else repr(float(v))] for t, v in ms]])
        out.append(dict(s, res=lst, err=0))
    return out


def totals(feed, recorded):
    """the messages in the order of the specification, with all that came out in the other order"""
    if any(s.get("err") for s in recorded):
        return recorded
    sums = {}
    for s in recorded:
        for i, p, ms in s.get("res", ()):
            sums.setdefault((i, p), []).extend(ms)
    return [{"k": "feed", "batch": s["batch"]} for s in feed] + [{"k": "totals", "res": [[i, p, ms] for (i, p), ms in sums.items()]}]


def reordered(rng, steps):
    """the same messages, those of each port in the same order, the ports interleaved in another way"""
    todo = {}
    for s in steps:
        for p, ms in s["batch"]:
            todo.setdefault(p, []).extend(ms)
    style, out, ports = rng.choice(["mixed", "blocks", "one"]), [], sorted(todo)
    rng.shuffle(ports)
    while ports:
        p = ports[0] if style == "one" else rng.choice(ports)
        n = len(todo[p]) if style == "one" else rng.randint(1, 8) if style == "blocks" else 1
        for m in todo[p][:n]:
            out.append({"k": "recv", "batch": [[p, [m]]], "dbg": 1})
        todo[p] = todo[p][n:]
        if not todo[p]:
            ports.remove(p)
    return out


def rows(rng, prog, nrows, short):
    """data of a run: a time and a value for each port of the entry, or for the first ones"""
    n, t, r = rtgen.nin(prog["ops"][0]), 0, []
    t = 40 if '"TimeShift"' in json.dumps(prog) else 0
    small, gap = rng.choice([True, False, "wide"]), rng.choice([1, 1, 2, 5])
    for _ in range(nrows):
        t += rng.randint(1, gap)
        u = t - rng.randint(0, 2) if rng.random() < 0.05 and t > 3 else t
        k = rng.randint(0, n) if short and rng.random() < 0.2 else n
        r.append([u] + [rtgen.num(rng, small) for _ in range(k)])
    return r


def runs(cases, driver):
    """the same for programs that a package of python or javascript runs over rows of data"""
    jobs = []
    for c in cases:
        e = c["embed"]
        jobs.append({"session": prog_json(c["real"], e), "rows": [[e.to(x[0])] + [rtnum.number(v) for v in x[1:]] for x in c["rows"]],
                     "extended": c["mode"] == "extended"})
    res = rtrun.execute(driver, jobs)
    traces, idx, out = [], [], [None] * len(cases)
    for i, (c, job, r) in enumerate(zip(cases, jobs, res)):
        c["job"], e = job, c["embed"]
        if rtrun.skipped(r):
            out[i] = {"v": "skipped"}
            continue
        if isinstance(r, dict):
            out[i] = {"v": "bad", "crash": r["crash"]}
            continue
        # the columns are in the order of getProgramEntryPorts: i1, i10, i11, i2, ...
        names = sorted("i%d" % (k + 1) for k in range(rtgen.nin(c["prog"]["ops"][0])))
        r, batches = r[0], [[[p, [[x[0], v]]] for p, v in zip(names, x[1:])] for x in c["rows"]]
        msgs = lambda ms: [[e.back(t), repr(float(v))] for t, v in ms]
        if "ok" not in r:
            steps = [{"k": "feed", "batch": b} for b in batches] + [{"k": "totals", "res": [["failed", r["err"], []]]}]
        elif job["extended"]:
            steps = [{"k": "recv", "batch": b, "dbg": 1, "err": 0,
                      "res": [[o, p, msgs([m["time"], m["value"]] for m in ms)] for o, ps in x["out"].items() for p, ms in ps.items() if ms]}
                     for b, x in zip(batches, r["ok"])]
            if len(r["ok"]) != len(batches):
                out[i] = {"v": "bad", "rows": len(r["ok"])}
                continue
        else:
            cols = []
            for k, col in r["ok"].items():
                o, p = k.rsplit(":", 1)
                ts, vs = (col["time"], col["value"]) if isinstance(col, dict) else col
                if len(ts) != len(vs):
                    out[i] = {"v": "bad", "column": k}
                if ts:
                    cols.append([o, p, msgs(zip(ts, vs))])
            if out[i]:
                continue
            steps = [{"k": "feed", "batch": b} for b in batches] + [{"k": "totals", "res": cols}]
        c["recorded"] = steps
        traces.append({"prog": c["prog"], "steps": steps})
        idx.append(i)
    return decide(traces, idx, out, 600)


def validate(cases, exe, seed=0, timeout=850):
    """cases: dicts with prog (what the specification runs), real (what the code runs), steps, embed, mode.
    Returns the outcome of each: accepted, refused, cut, bad"""
    if not isinstance(exe, str):
        return runs(cases, exe)
    rng = random.Random(seed)
    jobs, wheres = [], []
    for c in cases:
        n, w = commands(c["real"], c.get("realsteps") or c["steps"], c["embed"], c["mode"], rng)
        jobs.append({"cmds": n})
        wheres.append(w)
    res = rtrun.execute(exe, jobs)
    traces, idx, out = [], [], [None] * len(cases)
    for i, (c, job, w, r) in enumerate(zip(cases, jobs, wheres, res)):
        c["job"] = job
        if rtrun.skipped(r):
            out[i] = {"v": "skipped"}
            continue
        if isinstance(r, dict):
            out[i] = {"v": "bad", "crash": r["crash"]}
            continue
        first = r[0]
        if (isinstance(first, dict) and "err" in first) or (c["mode"] == "bindings" and first != "") or (c["mode"] == "factory" and first != ""):
            out[i] = {"v": "bad", "create": first}
            continue
        other = [x for k, x in enumerate(r) if isinstance(x, dict) and "err" in x and not isinstance(x["err"], dict) and k not in w]
        if other:
            out[i] = {"v": "bad", "failed": other[0]}
            continue
        steps = record(c.get("realsteps") or c["steps"], w, r, c["embed"])
        if "realsteps" in c:
            steps = totals(c["steps"], steps)
        if "project" in c:
            steps = [c["project"](s) for s in steps]
        c["recorded"] = steps
        traces.append({"prog": c["prog"], "steps": steps})
        idx.append(i)
    return decide(traces, idx, out, timeout)


def decide(traces, idx, out, timeout):
    """has TLC validate the traces, whose verdicts go to the given places of out"""
    stats = {"states": 0, "distinct": 0}
    if traces:
        d = tempfile.mkdtemp(prefix="rt-trace-")
        try:
            with open(d + "/in", "w") as f:
                for t in traces:
                    f.write(json.dumps(t) + "\n")
            r = rtrun.tlc("TraceProg", {"RT_IN": d + "/in", "RT_OUT": d + "/out"}, timeout=timeout)
            stats = {"states": r.states, "distinct": r.distinct}
            with open(d + "/out") as f:
                for l in f:
                    x = json.loads(l)
                    out[idx[x["trace"] - 1]] = x["verdict"]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if any(x is None for x in out):
        raise rtrun.ToolError("TLC did not decide %d sessions" % sum(x is None for x in out))
    return out, stats
