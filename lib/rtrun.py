"""Runs jobs on the executor, and TLC on the specification."""
import json, os, re, resource, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from rtbuild import VERIF, TLA, MODS, java

NPROC = 8


class ToolError(Exception):
    pass


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _feed(exe, jobs, limit):
    """one process over jobs; returns (results by position, how it ended)"""
    env = dict(os.environ, MALLOC_PERTURB_="165")
    with tempfile.TemporaryFile("w+") as fin, tempfile.TemporaryFile("w+") as fout:
        for j in jobs:
            fin.write(json.dumps(j, separators=(",", ":")) + "\n")
        fin.flush()
        fin.seek(0)
        p = subprocess.run([exe, str(limit)], stdin=fin, stdout=fout, stderr=subprocess.DEVNULL, env=env, preexec_fn=_limits)
        fout.seek(0)
        return fout.read().splitlines(), p.returncode


def _feed_driver(driver, jobs, limit):
    """the same for a driver (command, environment): it is watched from outside, because it may not be able to watch itself"""
    cmd, more = driver
    with tempfile.TemporaryFile("w+") as fin, tempfile.TemporaryFile("w+") as fout:
        for j in jobs:
            fin.write(json.dumps(j, separators=(",", ":")) + "\n")
        fin.flush()
        fin.seek(0)
        p = subprocess.Popen(cmd + [str(limit)], stdin=fin, stdout=fout, stderr=subprocess.DEVNULL, env=dict(os.environ, **more),
                             start_new_session=True)
        size, since, rc = 0, time.time(), None
        while rc is None:
            try:
                rc = p.wait(0.5)
            except subprocess.TimeoutExpired:
                now = os.fstat(fout.fileno()).st_size
                if now != size:
                    size, since = now, time.time()
                elif time.time() - since > 2 * limit + 10:
                    rc = 98
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        fout.seek(0)
        return fout.read().splitlines(), rc


def spent(more=0):
    """how often the code hung (10 each) or died, in all the processes of a check together"""
    f = os.environ.get("RT_HANGS")
    if not f:
        return 0
    with open(f, "ab") as h:
        h.write(b"x" * more)
    return os.path.getsize(f)


def skipped(r):
    return isinstance(r, dict) and "skipped" in r


def execute(exe, jobs, limit=20, nproc=NPROC):
    """results of the jobs, in order: a list, {"crash": how} when the executor died on it, or {"skipped": 1}: after many of those
    there is enough to report, and going on would take too long"""
    jobs = [dict(j, id=i) for i, j in enumerate(jobs)]
    res = [None] * len(jobs)

    def chunk(js):
        while js:
            if spent() >= 60:
                for j in js:
                    res[j["id"]] = {"skipped": 1}
                return
            lines, rc = (_feed if isinstance(exe, str) else _feed_driver)(exe, js, limit)
            done = 0
            for l in lines:
                try:
                    r = json.loads(l)
                except ValueError:
                    break
                res[r["id"]] = r["res"]
                done += 1
            if rc == 97:
                raise ToolError("the executor refused a job")
            if done >= len(js) and rc == 0:
                return
            spent(10 if rc == 98 else 1)
            if done >= len(js):
                # all answered, then it died: at the end of the last job
                res[js[-1]["id"]] = {"crash": rc}
                return
            res[js[done]["id"]] = {"crash": "timeout" if rc == 98 else rc}
            js = js[done + 1:]

    if not jobs:
        return []
    n = max(1, min(nproc, len(jobs) // 20 + 1))
    # interleaved chunks, so that the work is spread evenly
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(chunk, [jobs[k::n] for k in range(n)]))
    return res


class Tlc:
    """outcome of one run: ok, states, distinct, violated (name of the invariant) and the text"""


def tlc(module, env, cfg=None, workers=NPROC, timeout=700, simulate=None, seed=None, depth=None, mem="6g"):
    meta = tempfile.mkdtemp(prefix="rt-tlc-")
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", ":".join([java(), TLA, MODS]),
           "-DTLA-Library=" + VERIF + "/spec", "-Djava.io.tmpdir=" + meta, "tlc2.TLC", "-deadlock", "-lncheck", "final", "-workers", str(workers),
           "-metadir", meta, "-config", cfg or module + ".cfg", "-fp", "1", "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
    cmd.append(module + ".tla")
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=VERIF + "/spec", env=dict(os.environ, **{k: str(v) for k, v in env.items()}),
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.text = "\n".join(l for l in p.stdout.splitlines() if not re.match(r"Loading|Linting|Parsing|Semantic", l))
    r.wall = time.time() - t
    r.rc = p.returncode
    m = re.search(r"Invariant (\w+) is violated", p.stdout)
    r.violated = m.group(1) if m else None
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", p.stdout)
    r.states, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if simulate:
        m = re.findall(r"(\d[\d,]*) states checked", p.stdout)
        r.states = r.distinct = int(m[-1].replace(",", "")) if m else 0
    r.ok = p.returncode == 0
    if not r.ok and not r.violated:
        raise ToolError("TLC on " + module + " (exit %d):\n" % p.returncode + r.text[:1500] + "\n...\n" + r.text[-1500:] + p.stderr[-1000:])
    return r
