"""Mutates the engine's sources and looks which checks notice.

mutate.py list                    how many mutants there are of each file
mutate.py run N SEED [FILE...]    tries N random ones, in a scratch copy, until a check notices; writes /tmp/mut/SEED.jsonl
"""
import glob, json, os, random, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = {"Input": "C01", "Output": "C01", "Join": "C02 C03", "BinaryJoin": "C03", "And": "C03", "Or": "C03", "Plus": "C03", "Minus": "C03", "Multiplication": "C03", "Division": "C03",
       "GreaterThanStream": "C03", "LessThanStream": "C03", "Linear": "C03", "Demultiplexer": "C04", "Variable": "C05", "MovingAverage": "C06", "StandardDeviation": "C06",
       "FiniteImpulseResponse": "C06", "Difference": "C06", "PeakDetector": "C06", "Count": "C07", "CumulativeSum": "C07", "AutoRegressive": "C07", "Add": "C08", "Scale": "C08",
       "Constant": "C08", "Power": "C08", "Identity": "C08", "Function": "C08", "TimeShift": "C08", "LessThan": "C08", "GreaterThan": "C08", "EqualTo": "C08", "FilterByValue": "C08",
       "ConstantResampler": "C09", "CosineResampler": "C10", "HermiteResampler": "C10", "RelativeStrengthIndex": "C22", "Composite": "C18", "Pipeline": "C17 C16", "Program": "C11 C14 C20",
       "FactoryOp": "C21 C20 C19 C13", "bindings": "C13 C19 C20", "Operator": "C11 C02 C04 C06", "Message": "C11"}
REST = "C15 C11 C18 C21 C20 C13 C16"
SWAP = [(r"(?<![<\-])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<=\s)>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""), (r"\bfront\b", "back"), (r"\bback\b", "front"), (r"\+=", "-="), (r"\+\+", "--"), (r"\bbegin\(\)", "end()"),
        (r"\.clear\(\)", ".size()"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bpop_front\b", "pop_back"), (r"\b(double|V)\b(?= \w+ =)", "float"), (r"\b(T|uint64_t)\b(?= \w+ =)", "uint32_t"),
        (r"\bsize_t\b(?= \w+ =)", "uint8_t")]


def files():
    r = [f for d in ("core", "std", "finance", "api") for f in glob.glob("/repo/libs/%s/include/rtbot/**/*.h" % d, recursive=True)] + glob.glob("/repo/libs/api/src/*.cpp")
    return sorted(f[6:] for f in r if os.path.basename(f) not in ("Arma.h", "tools.h"))


def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        if re.match(r"\s*(#|\*|/\*|template|using|public|private|struct|class|namespace|virtual string typeName|string typeName)", l) or not code.strip() or "throw" in l and '"' in l and "if" not in l:
            continue
        for pat, to in SWAP:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                yield n, code[:m.start()] + to + l[m.end():]
        if re.match(r"\s+[\w\->.:(]+.*;\s*$", code) and not re.match(r"\s*(return|const|auto|[\w:<>, ]+ \w+( =|;|\())", code) and "typedef" not in code:
            yield n, re.match(r"\s*", l).group(0) + ";"
        m = re.match(r"(\s*)return (?!\{\})[^;]+;$", code)
        if m and "outputMsgs" in code:
            yield n, m.group(1) + "return {};"


def run(count, seed, only):
    rng = random.Random(seed)
    all_ = [(f, n, l) for f in files() if not only or any(x in f for x in only) for n, l in mutants(f)]
    # files count alike, not lines
    by = {}
    for m in all_:
        by.setdefault(m[0], []).append(m)
    pick = []
    for f, ms in by.items():
        rng.shuffle(ms)
    while len(pick) < count and any(by.values()):
        f = rng.choices(list(by), [len(by[f]) ** 0.5 for f in by])[0]
        if by[f]:
            pick.append(by[f].pop())
    wt = "/tmp/mut/wt%d" % seed
    subprocess.run("rm -r %s; cp -a /repo %s" % (wt, wt), shell=True, stderr=subprocess.DEVNULL)
    out = open("/tmp/mut/%d.jsonl" % seed, "a")
    for f, n, l in pick:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt)
        lines = open(wt + "/" + f).read().split("\n")
        old, lines[n] = lines[n], l
        open(wt + "/" + f, "w").write("\n".join(lines))
        name = os.path.basename(f).split(".")[0]
        own = OWN.get(name, "").split()
        t, verdict = time.time(), "MISSED"
        for c in own + [x for x in REST.split() if x not in own]:
            p = subprocess.run(["python3-vt", VERIF + "/bin/check.py", c], env=dict(os.environ, RT_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=None)
            if p.returncode == 1:
                verdict = c
                break
            if p.returncode == 2:
                verdict = "build" if "g++" in p.stdout else "ERROR " + c + " " + p.stdout[-200:]
                break
        r = {"file": f, "line": n + 1, "old": old.strip(), "new": l.strip(), "by": verdict, "own": own, "wall": round(time.time() - t)}
        out.write(json.dumps(r) + "\n")
        out.flush()
        print(json.dumps(r), flush=True)
    subprocess.run(["rm", "-r", wt])


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in files():
            print(f, len(list(mutants(f))))
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
