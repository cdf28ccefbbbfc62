"""The checks, one for each property."""
from fractions import Fraction
import itertools
import rtbuild, rtgen, rtnet, rtrun, rttrace, rtwrap
from rtcheck import SEED, THOROUGH

CHECKS = {}
OPS = ["plain", "time", "value", "program"]


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def focus(types, nops=(1, 5), msgs=(20, 60), hot=0.7, modes=("program", "factory"), big=True, batches=0.4, saves=(0, 0, 0.1),
          pipelines=0.0, rest=rtgen.ALL, lead=0.0, holes=0.01, other=0.1, wide=0.2, near=0.0):
    """random programs in which the given types of operators abound"""
    def make(rng):
        g = rtgen.Gen(rng, focus=types, types=sorted(set(rest) | set(types)), hot=hot, big=big, pipelines=pipelines,
                      lead=lead, holes=holes, wide=wide, near=near)
        p = g.program(rng.randint(*nops), entry="Input" if rng.random() >= other else "other")
        s = g.session(p, rng.randint(*msgs), batches=rng.random() < batches, saves=rng.choice(saves))
        return dict(prog=p, real=p, steps=s, embed=rtgen.embed_for(rng, p), mode=rng.choice(modes))
    return make


def long(types, length=4000 if THOROUGH else 1500, saves=(0, 0, 0.002), modes=("program", "factory"), pipelines=0.0):
    """long sessions of one operator, or of a pipeline of such operators"""
    kinds = itertools.cycle(types)

    def make(rng):
        t = next(kinds)
        n = length // (5 if t in ("Demultiplexer", "Variable") else 1)
        return focus([t], nops=(1, 1), msgs=(n, n + n // 4), hot=1.0, saves=saves, batches=0.5, modes=modes, pipelines=pipelines,
                     rest=rtgen.ALL if not pipelines else [t, "Identity"])(rng)
    return make


def gaps(types, most):
    """few messages with thousands of grid points between some of them"""
    kinds = itertools.cycle(types)

    def make(rng):
        t = next(kinds)
        c = focus([t], nops=(1, 1), msgs=(6, 6), hot=1.0, saves=(0, 0, 0.3), batches=0, other=0, pipelines=0)(rng)
        shift, steps, left = 0, [], rng.randint(1, 4)
        dt = [o.get("interval", o.get("dt")) for o in c["prog"]["ops"] if o["type"] == t][0]
        for s in c["steps"]:
            if s["k"] == "recv":
                (port, ((u, v),)), = s["batch"]
                left -= 1
                if left == 0:
                    shift = dt * rng.choice([rng.randint(most // 2, most), most])
                s = dict(s, batch=[[port, [[u + shift, v]]]])
            steps.append(s)
        return dict(c, steps=steps)
    return make


def runs(n):
    """long rises, falls and levels"""
    def make(rng):
        c = focus(["RelativeStrengthIndex"], nops=(1, 1), msgs=(90, 120), hot=1.0, other=0, batches=0, saves=(0, 0, 0.05))(rng)
        for o in c["prog"]["ops"]:
            if o["type"] == "RelativeStrengthIndex":
                o["n"] = rng.randint(2, n)
        v, k, d = 0, 0, 0
        for s in c["steps"]:
            if s["k"] == "recv":
                if k == 0:
                    k, d = rng.randint(1, 45), rng.choice([-1, 0, 1])
                k, v = k - 1, v + d * rng.randint(1, 9)
                s["batch"] = [[p, [[u, str(v)] for u, _ in ms]] for p, ms in s["batch"]]
        return c
    return make


def windows(types, most, **kw):
    """windows of many messages, of any number"""
    kinds = itertools.cycle(types)

    def make(rng):
        t = next(kinds)
        c = focus([t], nops=(1, 1), hot=1.0, other=0, wide=0, **dict(dict(msgs=(150, 250)), **kw))(rng)
        for o in c["prog"]["ops"]:
            if o["type"] == t:
                n = rng.randint(most // 2, most)
                if t == "FiniteImpulseResponse":
                    o["coeff"] = [rtgen.num(rng) for _ in range(n)]
                elif t == "AutoRegressive":
                    # few of them count, so that the values stay small
                    at = set(rng.sample(range(n), 2)) | {n - 1}
                    o["coeff"] = [rng.choice(["1/2", "-1/2", "1/4"]) if k in at else "0" for k in range(n)]
                elif t == "Function":
                    xs = [Fraction(x, 2) for x in rng.sample(range(-3 * n, 3 * n), n)]
                    o["points"] = [[str(x), rtgen.num(rng)] for x in xs]
                else:
                    o["n"] = n
        return c
    return make


def apart(kind, most):
    """data and controls far apart from each other"""
    def make(rng):
        n = 1 if kind == "Variable" else rng.randint(1, 3)
        c = {"type": kind, "id": "x", "value": rtgen.num(rng)} if kind == "Variable" else {"type": kind, "id": "x", "numPorts": n}
        ops = [{"type": "Input", "id": "in", "numPorts": n + 1}, c]
        conns = [["in", "o1", "x", "i1"]] + [["in", "o%d" % (k + 2), "x", "c%d" % (k + 1)] for k in range(n)]
        prog = {"ops": ops, "conns": conns, "entry": "in", "filter": []}
        steps, behind, t = [], [[] for _ in range(n + 1)], 0
        for _ in range(most):
            t += rng.randint(1, 3)
            data = rng.random() < 0.8
            for k in range(n + 1):
                if kind == "Variable" and rng.random() < 0.5 or k == 0 and not data:
                    continue
                behind[k].append([t, rtgen.num(rng) if k == 0 or kind == "Variable" else rng.choice("01")])
        # each port sends what it has in pieces, small ones or large ones
        while any(behind):
            k = rng.choice([j for j in range(n + 1) if behind[j]])
            for _ in range(min(len(behind[k]), rng.choice([1, 2, 5, 40, most]))):
                steps.append({"k": "recv", "batch": [["i%d" % (k + 1), [behind[k].pop(0)]]], "dbg": rng.randint(0, 1)})
            if rng.random() < 0.05:
                steps.append({"k": "save"})
        return dict(prog=prog, real=prog, steps=steps, embed=rtgen.embed_for(rng, prog), mode=rng.choice(["program", "factory"]))
    return make


def heaps(types, modes):
    """long sessions in few batches, some of thousands of messages"""
    longs = long(types, length=3600, modes=modes, saves=(0,))

    def make(rng):
        c = longs(rng)
        steps, recv = [], [s for s in c["steps"] if s["k"] == "recv"]
        while recv:
            n = rng.choice([1, 3, 1500, 3600])
            batch = {}
            for s in recv[:n]:
                for port, ms in s["batch"]:
                    batch.setdefault(port, []).extend(ms)
            recv = recv[n:]
            steps.append({"k": "recv", "batch": [[q, batch[q]] for q in rtgen.lex(batch)], "dbg": rng.randint(0, 1)})
        return dict(c, steps=steps)
    return make


def operator_check(pid, groups, types, n=120, more=(), **kw):
    @check(pid)
    def run(ctx):
        ctx.operators(groups, OPS, keep=0.5)
        ctx.sessions(focus(types, **kw), n)
        ctx.sessions(long(types), 8, key="sessions-long")
        for key, make, m in more:
            ctx.sessions(make, m, key="sessions-" + key)


operator_check("C01", ["input", "output"], ["Output", "Join", "Identity"], n=150, msgs=(30, 80))
operator_check("C02", ["join"], ["Join"], n=200, lead=0.1)
operator_check("C03", ["binary"], rtgen.SYNC2 + ["Linear"], n=200, lead=0.06)
operator_check("C04", ["demux"], ["Demultiplexer"], n=200, more=[("apart", apart("Demultiplexer", 300), 10)])
operator_check("C05", ["variable"], ["Variable"], n=200, more=[("apart", apart("Variable", 600), 10)])
operator_check("C06", ["window"], ["MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference", "PeakDetector"], n=150,
               more=[("near", focus(["MovingAverage", "StandardDeviation", "Difference", "PeakDetector"], nops=(1, 1), hot=1.0, near=1), 24),
                     ("windows", windows(["PeakDetector", "MovingAverage", "PeakDetector", "StandardDeviation", "FiniteImpulseResponse"], 60), 20)])
operator_check("C07", ["accumulator"], ["Count", "CumulativeSum", "AutoRegressive"], n=150,
               more=[("lags", windows(["AutoRegressive"], 40, msgs=(50, 90)), 12)])
operator_check("C08", ["map"], ["Add", "Scale", "Constant", "Power", "Identity", "Function", "TimeShift"] + rtgen.FILTERS, n=150,
               more=[("tables", windows(["Function"], 40, msgs=(80, 120)), 12)])
operator_check("C09", ["constantresampler"], ["ConstantResampler"], n=150, holes=0.12, more=[("gaps", gaps(["ConstantResampler"], 9000), 6)])
operator_check("C10", ["resampler"], ["CosineResampler", "HermiteResampler"], n=150, holes=0.12,
               more=[("gaps", gaps(["CosineResampler", "HermiteResampler"], 5000), 6)])
operator_check("C22", ["rsi"], ["RelativeStrengthIndex"], n=150, more=[("runs", runs(6), 40)])

GROUPS = ["input", "output", "join", "binary", "demux", "variable", "window", "accumulator", "map", "constantresampler", "resampler", "rsi"]


@check("C11")
def delivery(ctx):
    ctx.nets(["fan", "route", "pipe"], ["plain", "time"], keep=0.6)
    ctx.sessions(focus(["Join", "Plus", "Demultiplexer", "Identity", "Variable"], nops=(4, 12), msgs=(20, 50), hot=0.4, pipelines=0.1), 250)


@check("C12")
def wording(ctx):
    ctx.nets(["fan", "route", "pipe"], ["words"], keep=1.0)

    def make(rng):
        c = focus([], nops=(4, 12), pipelines=0.15, batches=0.2, modes=("program", "factory"))(rng)
        return dict(c, real=rttrace.permuted(rng, c["prog"]))
    ctx.sessions(make, 250)

    # the ports of the entry one after another instead of interleaved
    def later(rng):
        c = focus([], nops=(3, 9), batches=0, saves=(0,), pipelines=0.1, rest=DETERMINATE)(rng)
        return dict(c, real=rttrace.permuted(rng, c["prog"]), realsteps=rttrace.reordered(rng, c["steps"]))
    ctx.sessions(later, 200, key="sessions-reordered")

    # one port far ahead of the others
    def ahead(rng):
        c = focus(["Join"], nops=(1, 2), batches=0, saves=(0,), rest=["Minus", "Join", "Identity"], lead=0.7)(rng)
        return dict(c, real=rttrace.permuted(rng, c["prog"]), realsteps=rttrace.reordered(rng, c["steps"]))
    ctx.sessions(ahead, 12, key="sessions-ahead")


# the bindings refuse what is not in the published schema
PUBLISHED = [t for t in rtgen.ALL if t != "RelativeStrengthIndex"]
DETERMINATE = [t for t in rtgen.ALL if t not in ("Demultiplexer", "Variable")]


@check("C13")
def grouping(ctx):
    ctx.nets(["fan", "pipe"], ["batch", "entry"], keep=0.7)
    ctx.nets(["route"], ["entry"], keep=0.7)
    ctx.sessions(focus([], nops=(3, 9), batches=1, pipelines=0.1, modes=("program", "factory")), 150)
    ctx.sessions(focus([], nops=(3, 9), batches=1, modes=("bindings",), rest=PUBLISHED), 200, bindings=True, key="sessions-bindings")
    ctx.sessions(heaps(["Count", "Join", "CumulativeSum", "Minus", "MovingAverage"], ("bindings",)), 12, bindings=True, key="sessions-heaps")
    ctx.registry(["f", "b"], limit=6000)


@check("C14")
def selection(ctx):
    ctx.nets(["fan", "route", "pipe"], ["filter"])

    def make(rng):
        c = focus([], nops=(4, 10), batches=0.5, pipelines=0.2, modes=("program", "factory"))(rng)
        p = dict(c["prog"], filter=rtnet.someports(rng, c["prog"]))
        return dict(c, prog=p, real=p)
    ctx.sessions(make, 250)


STATEFUL = ["Join", "Plus", "Linear", "Demultiplexer", "Variable", "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference", "PeakDetector", "Count",
            "CumulativeSum", "AutoRegressive", "TimeShift", "ConstantResampler", "CosineResampler", "HermiteResampler", "RelativeStrengthIndex"]


def kept(pipelines):
    """small programs of one type of operator that is saved often, with numbers that take all the bits"""
    return lambda rng: focus([rng.choice(STATEFUL)], nops=(1, 3), msgs=(15, 40), hot=0.9, batches=0.3, saves=(0.2, 0.5), pipelines=pipelines, wide=0.7)(rng)


@check("C15")
def restoring(ctx):
    ctx.operators(GROUPS, ["restore"], limit=3000)
    ctx.nets(["fan", "route"], ["restore"], keep=0.5)
    ctx.sessions(kept(pipelines=0.0), 100, key="sessions-kept")
    ctx.sessions(long(STATEFUL, 600, (0.01, 0.02)), len(STATEFUL), key="sessions-long")
    ctx.sessions(focus([], nops=(3, 9), batches=0.3, saves=(0.1, 0.3), modes=("program", "factory")), 200)
    ctx.sessions(focus([], nops=(3, 9), batches=0.3, saves=(0.1, 0.3), modes=("bindings",), rest=PUBLISHED), 100, bindings=True, key="sessions-bindings")


@check("C16")
def pipelines_restored(ctx):
    ctx.nets(["pipe"], ["restore"])
    ctx.sessions(long([t for t in STATEFUL if t not in ("Variable", "Demultiplexer")], 500, (0.01, 0.02), pipelines=1), len(STATEFUL), key="sessions-long")
    ctx.sessions(kept(pipelines=0.8), 200, key="sessions-kept")
    ctx.sessions(focus([], nops=(2, 6), batches=0.3, saves=(0.1, 0.3), pipelines=0.6, modes=("program", "factory")), 250)


@check("C17")
def pipelines_unfolded(ctx):
    ctx.nets(["pipe"], ["plain", "flat", "time"])
    ctx.sessions(focus([], nops=(2, 6), batches=0.3, pipelines=0.6, modes=("program", "factory")), 250)


@check("C21")
def described(ctx):
    ctx.cases("MCConfig", "config", "rtconf", ["f"])
    ctx.operators(GROUPS, ["rewrite"], limit=3000)


@check("C19")
def registry(ctx):
    ctx.registry(["f", "b"])


@check("C18")
def composite(ctx):
    ctx.composite()

    def make(rng):
        g = rtgen.Gen(rng, types=rtgen.COMPOSABLE)
        p = g.program(rng.randint(2, 7))
        p["ops"] = [dict(o, useOldestTime=rng.random() < 0.3) if o["type"] == "Difference" else o for o in p["ops"]]
        s = g.session(p, rng.randint(20, 50), debug=1)
        # an output for some of the streams, and something outside that listens to it
        outs = [(o["id"], "o%d" % (k + 1)) for o in p["ops"] for k in range(rtgen.nout(o))]
        pick = [rng.choice(outs) for _ in range(rng.randint(1, 3))]
        p["ops"].append({"type": "Output", "id": "out", "numPorts": len(pick)})
        p["conns"] += [[i, port, "out", "i%d" % (k + 1)] for k, (i, port) in enumerate(pick)]
        outer = [g.params(t, "ext%d" % k) for k, t in enumerate(rng.sample(["Count", "CumulativeSum", "MovingAverage", "Minus"], 2))]
        for o in outer:
            for k in range(rtgen.nin(o)):
                p["conns"].append(["out", rng.choice(["o%d" % (j + 1) for j in range(len(pick))]), o["id"], "i%d" % (k + 1)])
        p["ops"] += outer
        p["filter"] = []
        real = dict(p, outer=[o["id"] for o in outer])
        return dict(prog=p, real=real, steps=s, embed=rtgen.embed_for(rng, p), mode="composite")
    ctx.sessions(make, 300)


@check("C20")
def wellformed(ctx):
    ctx.cases("MCConfig", "config", "rtconf", ["f", "b"])
    ctx.cases("MCWellFormed", "wellformed", "rtwell", ["f", "b"], env={"RT_TWO": 1}, limit=10**9 if THOROUGH else 15000)


def wrapped(modes):
    """random programs that a package runs over rows of data"""
    def make(rng):
        g = rtgen.Gen(rng, types=PUBLISHED, hot=0, holes=0.01)
        p = dict(g.program(rng.randint(2, 9)), filter=[])
        mode = rng.choice(modes)
        return dict(prog=p, real=rttrace.permuted(rng, p), rows=rttrace.rows(rng, p, rng.randint(15, 60), mode == "py"), embed=rtgen.embed_for(rng, p, 2**53), mode=mode)
    return make


@check("C23")
def python_package(ctx):
    d = rtwrap.python()
    ctx.cases("MCBuilder", "builder", "rtbuilt", ["py"], env={"RT_LANG": "py", "RT_LEN": 5 + THOROUGH}, exe=d, limit=30000 if THOROUGH else 6000)
    ctx.sessions(wrapped(["py"]), 200, exe=d)


@check("C24")
def javascript_package(ctx):
    d = rtwrap.node()
    ctx.cases("MCBuilder", "builder", "rtbuilt", ["js"], env={"RT_LANG": "js", "RT_LEN": 5 + THOROUGH}, exe=d, limit=60000 if THOROUGH else 10000)
    ctx.sessions(wrapped(["collapsed", "extended"]), 250, exe=d)


@check("C25")
def pipelines_registry(ctx):
    ctx.histories("MCRust", "rust", "rtrust", ["registry"], limit=40000, exe=rtwrap.rust(), longer=25)


@check("C26")
def debugger(ctx):
    ctx.cases("MCCli", "debugger", "rtcli", ["store", "screen"], exe=rtwrap.node())


@check("C27")
def generated(ctx):
    ctx.cases("MCConfig", "python", "rtmade", ["py"], exe=rtwrap.python())
    ctx.cases("MCConfig", "javascript", "rtmade", ["js"], exe=rtwrap.node())
    ctx.cases("MCSchema", "documents-python", "rtschema", ["py"], exe=rtwrap.python())
    ctx.cases("MCSchema", "documents-javascript", "rtschema", ["js"], exe=rtwrap.node())


@check("C28")
def debug_command(ctx):
    d = rtwrap.node()
    ctx.cases("MCDebug", "debug", "rtdebug", ["debug"], env={"RT_LEN": 2 + THOROUGH}, exe=d, limit=200000 if THOROUGH else 12000)
    ctx.cases("MCDebug", "debug-long", "rtdebug", ["debug"], env={"RT_WALK": 1, "RT_LEN": 45}, exe=d, limit=20000 if THOROUGH else 2500,
              simulate=2 + 6 * THOROUGH, seed=SEED, depth=46)
    ctx.cases("MCDebug", "debug-many", "rtdebug", ["debug"], env={"RT_WALK": 1, "RT_LEN": 540, "RT_STEP": 540}, exe=d,
              simulate=1, seed=SEED, depth=541)


@check("C29")
def redis_module(ctx):
    ctx.histories("MCRedis", "redis", "rtrust", ["redis"], limit=60000, length=4, exe=rtwrap.rust(), longer=14, runs=20)


@check("C30")
def rtbot_server(ctx):
    ctx.histories("MCServer", "server", "rtserver", ["server"], limit=9000, length=5, exe=rtwrap.rust_server(), longer=25)


@check("C31")
def by_hand(ctx):
    ctx.histories("MCWire", "wire", "rtwire", [""], limit=40000, length=3, runs=30, longer=14)


R = "TLA+ specification checked with TLC; every transition out of its states replayed, with a history that leads to it, on the real code"
S = R + "; recorded runs of random programs validated by TLC"
LIM = " Bounded histories and sampled longer walks: no proof for unbounded ones."
STUB = {
    "bind": "pybind11 and emscripten are stand-ins (harness/stub): the functions that the repository binds are called directly",
    "node": "the packages of npm that are not installed are stand-ins (harness/wrap/node), and so is the compiled wasm, which calls what wasm.cpp binds",
    "py": "the compiled python module is a stand-in (harness/wrap/py), which calls what python.cpp binds",
    "server": "warp, the websockets, the client of redis and the readers of configuration and json paths are stand-ins (harness/wrap/rust/server); tokio and futures are real",
    "rust": "the redis, jsonschema, nanoid and cxx crates are stand-ins (harness/wrap/rust); the engine behind them is a small deterministic one",
}
NEEDS = {"C13": ["bind"], "C15": ["bind"], "C19": ["bind"], "C20": ["bind"], "C23": ["bind", "py"], "C24": ["bind", "node"], "C25": ["rust"],
         "C26": ["node"], "C27": ["bind", "node", "py"], "C28": ["bind", "node"], "C29": ["rust"], "C30": ["server"]}
NOTES = {
    "C23": {"technique": S, "note": "spec/MCBuilder.tla: every history of calls of the python builder up to 5, with json and runs after each; random programs run by the real "
            "package and validated by TraceProg. Trusts the stand-in of the compiled module." + LIM},
    "C24": {"technique": S, "note": "spec/MCBuilder.tla for javascript: histories of calls up to 5, with json, runs and sessions; random programs run in both output formats. "
            "Trusts the stand-ins of wasm and npm packages." + LIM},
    "C25": {"technique": R, "note": "spec/MCRust.tla: every sequence of registry operations up to 5 over two input and two output keys. The engine is a stand-in." + LIM},
    "C26": {"technique": R, "note": "spec/MCCli.tla: all iterations and selections of a few results of runs; the table of the store and of the screen. Trusts the stand-ins of npm packages." + LIM},
    "C27": {"technique": R, "note": "spec/MCConfig.tla and MCSchema.tla: each parameter of each operator and each member of a program with every kind of value, against the generated classes, "
            "schemas and the compiled in one. Trusts the stand-ins of npm packages and of the schema validator."},
    "C28": {"technique": R, "note": "spec/MCDebug.tla: all files of few rows, random longer ones, with every way to start the command. Trusts the stand-ins of wasm and npm packages." + LIM},
    "C29": {"technique": R, "note": "spec/MCRedis.tla: every sequence of commands and samples up to 4 over three series, longer walks. Redis and the engine are stand-ins; samples come with "
            "increasing times." + LIM},
    "C30": {"technique": R, "note": "spec/MCServer.tla: every sequence of messages, publications, requests and doings of up to three clients up to 5, longer walks, over five mappings "
            "of the configuration. The first value is always a text: numbers in json are not modelled." + LIM},
}
