"""What all the checks share: evidence, confirmation of failures, verdicts."""
import json, os, random, shutil, sys, tempfile, time, traceback
import rtbuild, rtgen, rtnet, rtops, rtreg, rtrun, rttrace, rtwrap

VERIF = rtbuild.VERIF
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Ctx:
    def __init__(self, pid):
        self.pid, self.start = pid, time.time()
        self.cut = False
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.detail, self.assumptions = [], [], {}, []
        self.tmp = tempfile.mkdtemp(prefix="rt-%s-" % pid)
        os.environ["RT_HANGS"] = self.tmp + "/hangs"
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))

    def note(self, key, value):
        self.detail[key] = value

    def model(self, module, env, key, **kw):
        """TLC on a model; a violation there is an error of the specification, never of the code"""
        env = dict(env, RT_OUT=os.path.join(self.tmp, key + ".out"))
        if THOROUGH and "RT_DEEP" not in env:
            env["RT_DEEP"] = 1
        r = rtrun.tlc(module, env, **kw)
        if not r.ok:
            raise rtrun.ToolError("the specification %s (%s) breaks %s:\n%s" % (module, key, r.violated, r.text[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.note("model:" + key, {"module": module, "states": r.distinct, "transitions": r.states, "wall_s": round(r.wall, 1)})
        return env["RT_OUT"]

    def fail(self, what):
        self.bad.append(what)

    def again(self, bad):
        """the failures to try again, with a fresh account of what hung or died"""
        for b in bad:
            if os.path.exists(self.tmp + "/hangs"):
                self.cut = self.cut or rtrun.spent() >= 60
                os.remove(self.tmp + "/hangs")
            yield b

    # ---- behaviours of single operators
    def operators(self, groups, wanted, keep=1.0, limit=None):
        if self.bad:
            return
        exe = rtbuild.harness()
        for g in groups:
            out = self.model("MCOp", {"RT_GROUP": g}, "op-" + g)
            n = (limit or 12000) * (8 if THOROUGH else 1)
            x = rtops.replay(out, exe, wanted, SEED, 1.0 if THOROUGH else keep, n)
            self.traces += sum(x["runs"].values())
            self.note("replay:" + g, {"behaviours": x["behaviours"], "replayed": x["replayed"], "runs": x["runs"], "failed": x["nbad"]})
            self.samples += x["samples"][:1]
            for b in self.again(x["bad"]):
                again = rtops.chunk(([b["line"]], exe, [b["variant"]], SEED, 1))
                if again[3] or rtops.chunk(([b["line"]], exe, [b["variant"]], SEED, 1))[3]:
                    b.pop("line")
                    self.fail(b)
                    break
            os.remove(out)

    # ---- behaviours of whole programs
    def nets(self, groups, wanted, keep=1.0, limit=None, bindings=False):
        if self.bad:
            return
        exe = rtbuild.harness(bindings)
        for g in groups:
            out = self.model("MCNet", {"RT_GROUP": g}, "net-" + g)
            n = (limit or 8000) * (8 if THOROUGH else 1)
            x = rtnet.replay(out, exe, wanted, SEED, 1.0 if THOROUGH else keep, n)
            self.traces += sum(x["runs"].values())
            self.note("replay:" + g, {"behaviours": x["behaviours"], "replayed": x["replayed"], "runs": x["runs"], "failed": x["nbad"]})
            self.samples += x["samples"][:1]
            for b in self.again(x["bad"]):
                if any(rtnet.chunk(([b["line"]], exe, x["words"], [b["variant"]], SEED, 1))[3] for _ in range(2)):
                    b.pop("line")
                    self.fail(b)
                    break
            os.remove(out)

    # ---- histories of the registry, of a composite
    def histories(self, module, key, mod, sides, limit=15000, length=5, runs=40, longer=13, exe=None):
        if self.bad:
            return
        exe = exe or rtbuild.harness("b" in sides)
        for name, kw in (("all", {}), ("long", {"simulate": runs * (5 if THOROUGH else 1), "seed": SEED, "depth": longer + 1})):
            out = self.model(module, {"RT_LEN": longer if kw else length + (1 if THOROUGH else 0), "RT_WALK": 1 if kw else 0}, key + "-" + name, **kw)
            x = rtreg.replay(out, exe, sides, SEED, limit * (6 if THOROUGH else 1), mod)
            self.traces += x["runs"]
            self.note("replay:%s-%s" % (key, name), {"behaviours": x["behaviours"], "replayed": x["replayed"], "runs": x["runs"], "failed": x["nbad"]})
            self.samples += x["samples"]
            for b in self.again(x["bad"]):
                if rtreg.chunk(([b["line"]], exe, [b["side"]], mod))[3]:
                    b.pop("line")
                    self.fail(b)
                    break
            os.remove(out)

    def cases(self, module, key, mod, sides, env={}, limit=10**9, exe=None, **kw):
        if self.bad:
            return
        exe = exe or rtbuild.harness("b" in sides)
        out = self.model(module, env, key, **kw)
        x = rtreg.replay(out, exe, sides, SEED, limit, mod)
        self.traces += x["runs"]
        self.note("replay:" + key, {"behaviours": x["behaviours"], "replayed": x["replayed"], "runs": x["runs"], "failed": x["nbad"]})
        self.samples += x["samples"]
        for b in self.again(x["bad"]):
            if rtreg.chunk(([b["line"]], exe, [b["side"]], mod))[3]:
                b.pop("line")
                self.fail(b)
                if len(self.bad) > 4:
                    break
        os.remove(out)

    def registry(self, sides, **kw):
        self.histories("MCRegistry", "registry", "rtreg", sides, **kw)

    def composite(self, **kw):
        self.histories("MCComposite", "composite", "rtcomp", [""], longer=10, **kw)

    # ---- recorded sessions
    def sessions(self, make, count, bindings=False, key="sessions", exe=None):
        """make(rng): a case for rttrace.validate"""
        if self.bad:
            return
        exe = exe or rtbuild.harness(bindings)
        count *= 6 if THOROUGH else 1
        cases = []
        while len(cases) < count:
            c = make(self.rng)
            if c:
                cases.append(c)
        verdicts = {}
        for k in range(0, len(cases), 1500):
            part = cases[k:k + 1500]
            out, st = rttrace.validate(part, exe, SEED)
            self.states += st["distinct"]
            self.transitions += st["states"]
            for c, o in zip(part, out):
                verdicts[o["v"]] = verdicts.get(o["v"], 0) + 1
                if o["v"] == "bad" and len(self.bad) < 5:
                    list(self.again([c]))
                    again, _ = rttrace.validate([dict(c)], exe, SEED)
                    if again[0]["v"] != "bad":
                        again, _ = rttrace.validate([dict(c)], exe, SEED + 1)
                    if again[0]["v"] == "bad":
                        self.fail({"session": c["prog"], "mode": c["mode"], "base": c["embed"].base, "scale": c["embed"].scale,
                                   "recorded": c.get("recorded"), "verdict": o, "job": c["job"]})
        self.traces += len(cases)
        self.note(key, verdicts)
        if not self.bad and verdicts.get("accepted", 0) + verdicts.get("bad", 0) < 0.5 * len(cases):
            raise rtrun.ToolError("too many sessions were cut: %s" % verdicts)
        for c in cases[:40]:
            if len(c.get("recorded") or []) > 3:
                self.samples.append({"session": c["prog"], "first_steps": c["recorded"][:3]})
                break

    # ---- end
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:4], "detail": self.detail},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 1), "violations": len(self.bad)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if self.bad:
            path = VERIF + "/evidence/replay-%s.json" % self.pid
            with open(path, "w") as f:
                json.dump(self.bad, f, indent=1, default=str)
            print("\n".join(json.dumps(b, default=str)[:1500] for b in self.bad[:3]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, ev["wall_s"]))
        return 0


def main(checks, stubs={}, needs={}):
    pid = sys.argv[1]
    ctx = Ctx(pid)
    ctx.assumptions = ["bounded instances and sampled sessions; nothing is proved for longer ones", "the executor and the exact numbers of spec/RtNum.java are right"]
    ctx.assumptions += [stubs[x] for x in needs.get(pid, [])]
    try:
        checks[pid](ctx)
    except rtwrap.Broken as e:
        ctx.fail({"broken": str(e)})
    except (rtrun.ToolError, rtbuild.BuildError) as e:
        print("ERROR property=%s: %s" % (pid, e))
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        if ctx.bad:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 2
    if not ctx.bad and (ctx.cut or os.path.exists(ctx.tmp) and rtrun.spent() >= 60):
        print("ERROR property=%s: the code hung or died many times, and not again" % pid)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 2
    return ctx.finish()
