"""Random programs and sessions for the trace validation (spec/TraceProg.tla), and their translation for the executor.

Everything here is written in the terms of the specification: numbers are rationals written as strings, times are small
integers; `Embed` maps them to what the code receives and back.
"""
import json
from fractions import Fraction
import rtnum

SYNC2 = ["Minus", "Plus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream"]
MAPS = ["Add", "Scale", "Constant", "Power", "Identity", "Function", "TimeShift", "Count", "CumulativeSum", "AutoRegressive"]
FILTERS = ["LessThan", "GreaterThan", "EqualTo"]
WINDOWS = ["MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference", "RelativeStrengthIndex"]
RESAMPLERS = ["ConstantResampler", "CosineResampler", "HermiteResampler"]
ALL = MAPS + FILTERS + WINDOWS + RESAMPLERS + SYNC2 + ["Join", "Linear", "Demultiplexer", "Variable", "Output"]
# what Composite can create
COMPOSABLE = ["Add", "AutoRegressive", "Constant", "CosineResampler", "HermiteResampler", "Count", "CumulativeSum", "Join", "Division",
              "Minus", "Linear", "EqualTo", "GreaterThan", "LessThan", "Identity", "MovingAverage", "PeakDetector", "StandardDeviation",
              "Demultiplexer", "Power", "Scale", "TimeShift", "FiniteImpulseResponse", "Difference", "Variable"]
LINE = ["Add", "Scale", "Identity", "Count", "CumulativeSum", "MovingAverage", "LessThan", "GreaterThan"]


class Embed:
    """time t of the specification is base + scale * t in the code"""

    def __init__(self, base=0, scale=1):
        self.base, self.scale = base, scale

    def to(self, t):
        return self.base + self.scale * t

    def back(self, t):
        d = t - self.base
        return d // self.scale if d % self.scale == 0 and -2**30 < d // self.scale < 2**30 else -999999


def num(rng, small=False):
    if small == "near":
        # large, and close to each other
        return str(8000000 + Fraction(rng.randint(-2048, 2048), 1024))
    if small == "wide":
        # exact in double precision, not in single
        return str(Fraction(rng.randint(-2**26, 2**26) | 1, 2**rng.choice([16, 20, 25])))
    if small:
        return str(rng.randint(-2, 3))
    return str(Fraction(rng.randint(-40, 40), rng.choice([1, 1, 2, 4])))


def odd(rng, used):
    n = ""
    while not n or n in used:
        n = "".join(rng.choice("aZ09 _-./\\\"'{}[]:,#%%\u00e9\u6f22") for _ in range(rng.choice([1, 2, 5, 12, 300])))
    return n


def renamed(rng, p):
    """the program with other names: any text names an operator"""
    names = {}
    for o in p["ops"]:
        names[o["id"]] = odd(rng, names.values())
    return {"ops": [dict(o, id=names[o["id"]]) for o in p["ops"]], "conns": [[names[c[0]], c[1], names[c[2]], c[3]] for c in p["conns"]],
            "entry": names[p["entry"]], "filter": sorted([names[i], ps] for i, ps in p["filter"])}


def lex(ports):
    return sorted(ports)


def cfg_json(c, e):
    """the json of an operator of the specification"""
    j = {"type": c["type"], "id": c["id"]}
    for k, v in c.items():
        if k in ("type", "id"):
            continue
        if k == "value":
            v = rtnum.number(v)
        elif k == "coeff":
            v = [rtnum.number(x) for x in v]
        elif k == "points":
            v = [[rtnum.number(a), rtnum.number(b)] for a, b in v]
        elif k in ("dt", "interval"):
            v = v * e.scale
        elif k == "prog":
            v = {"operators": [cfg_json(o, e) for o in v["ops"]], "connections": [conn_json(x) for x in v["conns"]]}
        j[k] = v
    return j


def conn_json(k):
    j = {"from": k[0], "to": k[2]}
    if k[1]:
        j["fromPort"] = k[1]
    if k[3]:
        j["toPort"] = k[3]
    return j


def prog_json(p, e):
    j = {"operators": [cfg_json(o, e) for o in p["ops"]], "connections": [conn_json(k) for k in p["conns"]], "entryOperator": p["entry"]}
    if p["filter"]:
        j["output"] = {i: ports for i, ports in p["filter"]}
    return j


def nin(c):
    t = c["type"]
    return c["numPorts"] if t in ("Input", "Output", "Join") else len(c["coeff"]) if t == "Linear" else 2 if t in SYNC2 else 1


def nout(c):
    return c["numPorts"] if c["type"] in ("Input", "Output", "Join", "Demultiplexer") else 1


class Gen:
    def __init__(self, rng, focus=(), types=ALL, composite=False, pipelines=0.0, big=False, hot=0.5, lead=0.0, holes=0.0, wide=0.2, near=0.0):
        self.lead, self.holes, self.wide, self.near = lead, holes, wide, near
        self.r, self.focus, self.types = rng, [t for t in focus], list(types)
        self.pipelines, self.big, self.hot = pipelines, big, hot

    def params(self, t, oid):
        r = self.r
        c = {"type": t, "id": oid}
        n = lambda lo: r.choice([lo, lo + 1, lo + 2, r.randint(lo, 8)] + ([r.randint(9, 40)] if self.big else []))
        if t in ("Add", "Scale", "Constant"):
            c["value"] = num(r)
        elif t == "Power":
            c["value"] = r.choice(["2", "2", "3", "1", "0"])
        elif t == "Function":
            k = r.randint(2, 6)
            xs = sorted(r.sample(range(-12, 13), k))
            if r.random() < 0.6:
                r.shuffle(xs)
            c["points"] = [[str(x), num(r)] for x in xs]
            c["interpolation"] = r.choice(["linear", "hermite"])
        elif t == "TimeShift":
            c["dt"], c["times"] = r.randint(1, 4), r.randint(-3, 4)
        elif t == "AutoRegressive":
            c["coeff"] = [r.choice(["1/2", "-1/2", "1/4", "-1", "0"]) for _ in range(r.randint(1, 5))]
        elif t in ("LessThan", "GreaterThan"):
            c["value"] = num(r)
        elif t == "EqualTo":
            c["value"] = num(r, True)
        elif t in ("MovingAverage", "PeakDetector"):
            c["n"] = n(1)
            if t == "PeakDetector":
                c["n"] = r.choice([1, 3, 3, 5, 7, r.randint(2, 9)])
        elif t in ("StandardDeviation", "RelativeStrengthIndex"):
            c["n"] = n(2)
        elif t == "FiniteImpulseResponse":
            c["coeff"] = [num(r) for _ in range(n(1))]
        elif t == "ConstantResampler":
            c["interval"] = r.randint(1, 5)
        elif t in RESAMPLERS:
            c["dt"] = r.randint(1, 5)
        elif t == "Join":
            c["numPorts"] = r.choice([2, 2, 2, 2, 3, 3, 3, 4, 5, r.randint(6, 12)])
        elif t == "Output":
            c["numPorts"] = r.choice([1, 1, 1, 2, 2, 3, 3, r.randint(4, 12)])
        elif t == "Linear":
            c["coeff"] = [num(r) for _ in range(r.choice([2, 2, 2, 3, 3, 4, r.randint(5, 12)]))]
        elif t == "Demultiplexer":
            c["numPorts"] = r.choice([1, 1, 2, 2, 2, 3, 3, r.randint(4, 12)])
        elif t == "Variable":
            c["value"] = num(r)
        return c

    def program(self, nops, nports=None, entry="Input"):
        r = self.r
        p = nports or r.choice([1, 1, 2, 2, 3] * 5 + [r.randint(9, 12)])
        ops = [{"type": "Input", "id": "in", "numPorts": p}]
        types = self.types
        if entry != "Input":
            # messages with the same time may follow each other, where every operator takes them one by one
            p, types = 1, [t for t in self.types if t in MAPS + FILTERS + WINDOWS]
            ops = [self.params(r.choice(["Identity", "Add", "Scale", "TimeShift", "MovingAverage"]), "in")]
        # a stream is (id, port, entry port it comes from one to one, or None)
        streams = [("in", "o%d" % (k + 1), k) for k in range(p)]
        conns = []
        self.k = 0

        def fresh():
            self.k += 1
            return "%s%02d" % (r.choice("bmz"), self.k)

        def link(src, oid, port):
            conns.append([src[0], src[1], oid, port])

        def pick():
            return r.choice(streams[-6:] if r.random() < 0.6 else streams)

        for _ in range(nops):
            pool = [t for t in self.focus if t in types]
            t = r.choice(pool) if pool and r.random() < self.hot else r.choice(types)
            oid = fresh()
            if self.pipelines and r.random() < self.pipelines:
                c, ins, outs = self.pipeline(oid)
                ops.append(c)
                for k in range(ins):
                    link(pick(), oid, "i%d" % (k + 1))
                streams += [(oid, "o%d" % (k + 1), None) for k in range(outs)]
                continue
            c = self.params(t, oid)
            if t == "Demultiplexer":
                base = r.choice([s for s in streams if s[2] is not None])
                same = [s for s in streams if s[2] == base[2]]
                ctl = []
                for k in range(c["numPorts"]):
                    # a stream of zeros and ones with the times of the data
                    b = {"type": r.choice(["And", "Or"]), "id": fresh()}
                    if b["type"] not in self.types:
                        b = {"type": "Constant", "id": b["id"], "value": r.choice(["0", "1"])}
                        ops.append(b)
                        link(r.choice(same), b["id"], "i1")
                    else:
                        ops.append(b)
                        link(r.choice(same), b["id"], "i1")
                        link(r.choice(same), b["id"], "i2")
                    ctl.append((b["id"], "o1"))
                ops.append(c)
                todo = [(r.choice(same), "i1")] + [(s, "c%d" % (k + 1)) for k, s in enumerate(ctl)]
                r.shuffle(todo)
                for s, port in todo:
                    link(s, oid, port)
                streams += [(oid, "o%d" % (k + 1), None) for k in range(c["numPorts"])]
                continue
            if t == "Variable":
                entries = [s for s in streams if s[0] == "in"]
                ops.append(c)
                link(r.choice(entries), oid, "i1")
                link(r.choice(entries), oid, "c1")
                streams.append((oid, "o1", None))
                continue
            ops.append(c)
            src = [pick() for _ in range(nin(c))]
            if t in SYNC2 + ["Join", "Linear"] and r.random() < 0.6:
                # ports that meet often
                base = r.choice(streams)
                src = [base if r.random() < 0.5 else s for s in src]
            for k, s in enumerate(src):
                one = nin(c) == 1
                conns.append([s[0], s[1] if r.random() < 0.7 or not self.single(ops, s[0]) else "", oid,
                              "" if one and r.random() < 0.3 else "i%d" % (k + 1)])
            keep = src[0][2] if t in ("Add", "Scale", "Constant", "Power", "Identity", "Count", "CumulativeSum", "Function") else None
            for k in range(nout(c)):
                streams.append((oid, "o%d" % (k + 1), keep))
        for k in conns:  # one connection must not be declared twice
            pass
        filt = []
        if r.random() < 0.4:
            cand = [o for o in ops]
            for o in r.sample(cand, min(len(cand), r.randint(1, 4))):
                n = self.outs(o)
                ports = ["o%d" % (k + 1) for k in range(n)]
                filt.append([o["id"], sorted(r.sample(ports, r.randint(1, n)))])
        p = {"ops": ops, "conns": conns, "entry": "in", "filter": sorted(filt)}
        return renamed(r, p) if r.random() < 0.12 else p

    def outs(self, c):
        return self.pipeports[c["id"]][1] if c["type"] == "Pipeline" else nout(c)

    pipeports = {}

    def single(self, ops, oid):
        o = [x for x in ops if x["id"] == oid][0]
        return self.outs(o) == 1

    def pipeline(self, oid, depth=0):
        """a pipeline with one to three free inputs"""
        r = self.r
        types = [t for t in self.types if t not in ("Demultiplexer", "Variable", "Output")]
        heads = r.randint(1, 2)
        ops, conns, streams, free = [], [], [], 0
        names = r.sample(["pa", "qb", "rc", "sd", "te", "uf", "vg", "wh"], 6)
        if r.random() < 0.2:
            # any text names an operator
            names = [odd(r, ()) + str(k) for k in range(6)]
        elif r.random() < 0.35:
            # each may be the start of others
            names = r.sample(["a", "ab", "abc", "aB", "a1", "a12", "a-", "a b", "b", "ba"], 6)
        for h in range(heads):
            t = r.choice(types)
            if depth == 0 and r.random() < 0.15:
                c, i, o = self.pipeline(names[h], 1)
                free += i
            else:
                c = self.params(t, names[h])
                free += nin(c)
                o = nout(c)
            ops.append(c)
            streams += [(c["id"], "o%d" % (k + 1)) for k in range(o)]
        for j in range(r.randint(0, 3)):
            c = self.params(r.choice(types), names[heads + j])
            ops.append(c)
            for k in range(nin(c)):
                s = r.choice(streams)
                conns.append([s[0], s[1], c["id"], "i%d" % (k + 1)])
            streams += [(c["id"], "o%d" % (k + 1)) for k in range(nout(c))]
        used = {(k[0], k[1]) for k in conns}
        outs = len([s for s in streams if s not in used])
        r.shuffle(ops)
        r.shuffle(conns)
        self.pipeports = dict(self.pipeports)
        self.pipeports[oid] = (free, outs)
        return {"type": "Pipeline", "id": oid, "prog": {"ops": ops, "conns": conns}}, free, outs

    def session(self, prog, nmsgs, batches=False, saves=0.0, debug=0.3, stale=0.05, ordered=False):
        """steps in the form of TraceProg, without results"""
        r = self.r
        p = nin(prog["ops"][0])
        again = prog["ops"][0]["type"] != "Input"
        # far enough from zero, where a negative TimeShift would make several messages meet
        t = 40 if '"TimeShift"' in json.dumps(prog) else 0
        last = [t] * p
        if again:
            t = t or 1
        small = "wide" if r.random() < self.wide else r.random() < 0.5
        if self.near and r.random() < self.near:
            small = "near"
        mode = r.choice(["together", "free", "free"])
        gap = r.choice([1, 1, 2, 5])
        msgs = []
        if self.lead and p > 1 and r.random() < self.lead:
            # one port is far ahead of the others
            k = r.randrange(p)
            for _ in range(r.randint(200, 420)):
                last[k] += 1
                msgs.append((k, last[k], num(r, small)))
            nmsgs += len(msgs)
            mode = "free"
            behind = [j for j in range(p) if j != k]
            for j in behind:
                # they follow near the oldest and near the newest of those that wait
                last[j] = t
                for u in (t + 1, t + 2, t + 40, last[k] - 3, last[k] - 1, last[k], last[k] + 1):
                    last[j] = u
                    msgs.append((j, u, num(r, small)))
        holes = 1 if self.holes and r.random() < self.holes else 0
        while len(msgs) < nmsgs:
            if holes and r.random() < 0.15:
                holes -= 1
                t += r.randint(60, 150)
                last = [x + r.randint(60, 150) for x in last]
            if again:
                t += r.choice([0, 0, 1, 2])
                msgs.append((0, t, num(r, small) if r.random() < 0.6 or not msgs else msgs[-1][2]))
            elif mode == "together":
                t += r.randint(1, gap)
                for k in r.sample(range(p), p):
                    if r.random() < 0.9:
                        msgs.append((k, t, num(r, small)))
            else:
                k = r.randrange(p)
                u = last[k] + r.randint(1, gap)
                if not ordered and r.random() < stale:
                    u = max(1, last[k] - r.randint(0, 2))
                last[k] = max(last[k], u)
                msgs.append((k, u, num(r, small)))
        steps = []
        i = 0
        while i < len(msgs):
            n = r.choice([1, 1, 2, 5, 9]) if batches else 1
            batch = {}
            for k, u, v in msgs[i:i + n]:
                batch.setdefault("i%d" % (k + 1), []).append([u, v])
            i += n
            steps.append({"k": "recv", "batch": [[q, batch[q]] for q in lex(batch)], "dbg": 1 if r.random() < debug else 0})
            if r.random() < saves:
                steps.append({"k": "save"})
        return steps


def embed_for(rng, prog, most=2**62):
    """a random embedding of time that keeps the meaning of the operators"""
    ts, back = set(), []

    def walk(p):
        for o in p["ops"]:
            ts.add(o["type"])
            if o["type"] == "TimeShift":
                back.append(max(0, -o["dt"] * o["times"]))
            if o["type"] == "Pipeline":
                walk(o["prog"])
    walk(prog)
    scale = 1 if "HermiteResampler" in ts else rng.choice([1, 1, 1000, 2**33 + 1])
    # sessions with a TimeShift start at 40: the origin of time matters only to those that go further back
    bases = [0] if sum(back) > 35 else [0, 1700000000000, 2**40 + 5] + ([] if back else [0, -scale])
    if most > 2**61 and scale <= 1000 and sum(back) <= 35:
        bases += [1700000000000000000, 1700000000000000001]
    return Embed(rng.choice(bases), scale)
