"""Replays histories of a program and its runs with the python package; one job in each line, one answer in each line."""
import json, os, signal, sys

LIMIT = int(sys.argv[1]) if len(sys.argv) > 1 else 20
real = os.dup(1)
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
signal.signal(signal.SIGALRM, lambda *_: os._exit(98))

import rtbot
from rtbot import operators, rtbotapi


def trying(f):
    try:
        return {"ok": f()}
    except Exception as e:
        return {"err": str(e) or type(e).__name__}


def operator(c):
    """an object of the generated class; what is left out takes its default"""
    c = dict(c)
    return getattr(operators, c.pop("type"))(**c)


def history(job):
    p, res = None, []
    for a in job["hist"]:
        k = a[0]
        before = p

        def step():
            nonlocal p
            if k == "new":
                p = rtbot.Program(**{("entryOperator" if n == "entry" else n): v for n, v in a[1].items()})
            elif k == "add":
                r = p.addOperator(operator(a[1]))
            elif k == "addbad":
                o = operator({"type": "Count", "id": "bad"})
                o.update(a[1])
                p.addOperator(o)
            elif k == "conn":
                f, fp, t, tp = a[1]
                kw = {}
                if fp:
                    kw["fromPort"] = fp
                if tp:
                    kw["toPort"] = tp
                p.addConnection(f, t, **kw)
            elif k == "reload":
                p = rtbot.parse(p.toJson())
            elif k == "entry":
                p.entryOperator = a[1]
            elif k == "output":
                p.output = a[1]
            else:
                raise SystemExit("unknown " + k)
        r = trying(step)
        res.append(["refused" if "err" in r else "ok", trying(lambda: json.loads(p.toJson()))])
    res.append(trying(p.validate))

    def bare():
        """the same program as somebody else may have written it: without the ports that need not be said"""
        q = json.loads(p.toJson())
        for c in q["connections"]:
            for port, value in (("fromPort", "o1"), ("toPort", "i1")):
                if c[port] == value:
                    del c[port]
        return rtbot.Program(**q).toMermaidJs()
    res.append([trying(p.toMermaidJs), trying(bare)])
    # another program that lives next to it
    other = rtbot.Program(entryOperator="c")
    other.addOperator(operator({"type": "Count", "id": "c"}))
    rtbotapi.createProgram(other.id, other.toJson())
    feed = lambda t: trying(lambda: (rtbotapi.addToMessageBuffer(other.id, "i1", t, 5.0), json.loads(rtbotapi.processMessageBuffer(other.id)))[1])
    count = 0
    for rows in job["rows"]:
        for _ in range(2):
            count += 1
            feed(count)
            del rtbotapi.log[:]
            run = trying(lambda: rtbot.Run(p, rows).exec())
            calls = [list(c) for c in rtbotapi.log if c[0] != "validate"]
            alive = trying(lambda: rtbotapi.getProgramEntryOperatorId(p.id))
            res.append([run, "ok" in alive, calls])
    res.append(feed(count + 1))
    res.append(trying(lambda: json.loads(p.toJson())))
    rtbotapi.deleteProgram(other.id)
    rtbotapi.deleteProgram(p.id)
    return res


def make(job):
    """operators made by the generated classes: the json, or refused"""
    return [trying(lambda: json.loads(json.dumps(operator(c)))) for c in job["make"]]


def session(job):
    """a long run"""
    p = rtbot.parse(json.dumps(job["session"]))
    r = trying(lambda: rtbot.Run(p, job["rows"]).exec())
    rtbotapi.deleteProgram(p.id)
    return [r]


def check(job):
    """what the schema that is compiled in says of a document, and whether a program comes out of it"""
    def one(text):
        valid = json.loads(rtbotapi.validate(text))["valid"]
        made = trying(lambda: rtbotapi.createProgram("checked", text))
        rtbotapi.deleteProgram("checked")
        return [valid, "made" if made.get("ok") == "" else "refused"]
    return [one(t) for t in job["check"]]


for line in sys.stdin:
    job = json.loads(line)
    signal.alarm(LIMIT)
    r = history(job) if "hist" in job else make(job) if "make" in job else check(job) if "check" in job else session(job)
    signal.alarm(0)
    os.write(real, (json.dumps({"id": job["id"], "res": r}) + "\n").encode())
