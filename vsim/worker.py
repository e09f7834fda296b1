"""
Simulation worker (run under Jython).  Takes a job file, writes one JSON line per event to the
job's output file: it never decides the verdict, the driver does.
"""
import sys
import os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VSIM_REPO", "/repo")
sys.path.insert(0, REPO + "/src")
sys.dont_write_bytecode = True

import json
import threading
import time
import traceback
from java.lang import OutOfMemoryError, Runtime, System
from vsim import core

REAL_TIME = time.time


def load(prop):
    mod = __import__("vsim.scenarios.%s" % (prop.lower(),), fromlist=["SCENARIO"])
    return mod.SCENARIO


def readable(s):
    if isinstance(s, list):
        return [readable(i) for i in s]
    return s.decode("utf-8", "replace") if isinstance(s, str) else s


class Out(object):
    def __init__(self, path):
        self.f = open(path, "a")
        self.lock = threading.Lock()

    def put(self, **kw):
        # what the library said may hold any bytes
        for k in ("message", "error", "trace"):
            if k in kw:
                kw[k] = readable(kw[k])
        with self.lock:
            self.f.write(json.dumps(kw, sort_keys=True) + "\n")
            self.f.flush()


class Watchdog(object):
    """
    Liveness: a run that makes no progress for `limit` seconds of real time (runs take milliseconds) is
    stuck.  The process is halted; the driver decides after a second, isolated attempt.
    """

    def __init__(self, out, limit):
        self.out = out
        self.limit = limit
        self.seed = None
        self.since = None
        t = threading.Thread(target=self.run)
        t.setDaemon(True)
        t.start()

    def run(self):
        from java.lang import OutOfMemoryError, Thread
        while True:
            Thread.sleep(500)
            since = self.since
            if since is not None and System.nanoTime() - since > self.limit * 1000000000:
                self.out.put(t="hang", seed=self.seed)
                Runtime.getRuntime().halt(7)

    def start(self, seed):
        self.seed = seed
        self.since = System.nanoTime()

    def stop(self):
        self.since = None


def now():
    return System.nanoTime() / 1e9


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = Out(job["out"])
    try:
        scn = load(job["prop"])
        wd = Watchdog(out, job.get("hang", 60))
        if job["mode"] == "search":
            search(job, scn, out, wd)
        elif job["mode"] == "replay":
            replay(job, scn, out, wd)
        elif job["mode"] == "generate":
            name = "%s/%s/%s" % (job["prop"], job["base"], job["seed"])
            out.put(t="case", case=scn.generate(core.Rnd(name), job["tier"]))
        out.put(t="done")
    except core.HarnessError as e:
        out.put(t="harness", error=str(e))
        out.put(t="done")
    except:
        out.put(t="harness", error=traceback.format_exc())
        out.put(t="done")
    Runtime.getRuntime().halt(0)


def search(job, scn, out, wd):
    agg = {"runs": 0, "steps": 0, "simtime": 0, "faults": {}, "probes": {}, "configs": {}}
    fps = set()
    runs = set()
    t0 = now()
    known = job.get("known", [])
    hit = {}
    samples = []
    shrunk = 0
    done = []
    for seed in job["seeds"]:
        if now() - t0 > job["deadline"]:
            agg["stopped_early"] = True
            break
        name = "%s/%s/%s" % (job["prop"], job["base"], seed)
        case = scn.generate(core.Rnd(name), job["tier"])
        wd.start(seed)
        try:
            ctx, v = core.run_case(scn, case)
        except OutOfMemoryError:
            out.put(t="hang", seed=seed)
            Runtime.getRuntime().halt(7)
        wd.stop()
        done.append(seed)
        agg["runs"] += 1
        agg["steps"] += ctx.steps
        agg["simtime"] += ctx.simtime
        for k, n in ctx.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in ctx.probes.items():
            agg["probes"][k] = agg["probes"].get(k, 0) + n
        c = case.get("config", "default")
        agg["configs"][c] = agg["configs"].get(c, 0) + 1
        fps.update(ctx.fps)
        if ctx.nontrivial >= 2:
            runs.add(ctx.digest.hexdigest()[:12])
        if len(samples) < 3:
            samples.append({"seed": seed, "steps": ctx.steps, "case": case})
        if seed in job.get("digests", ()) or job.get("alldigests"):
            out.put(t="digest", seed=seed, d=ctx.digest.hexdigest())
        if v is not None:
            k = match_known(known, v)
            if k is not None:
                hit[k] = hit.get(k, 0) + 1
                continue
            out.put(t="raw", seed=seed, kind=v.kind, message=v.message[:20000], case=case)
            small, sv = case, v
            if shrunk < job.get("maxshrink", 1):
                wd.limit = 600
                small, sv = core.shrink(scn, case, v.kind, job.get("shrink", 25), now)
                if sv is None:
                    # does not happen on its own: needs what earlier runs left in the process
                    out.put(t="violation", seed=seed, kind=v.kind, message=v.message[:20000], case=case,
                            prelude=done)
                    break
                shrunk += 1
            out.put(t="violation", seed=seed, kind=sv.kind, message=sv.message[:20000], case=small)
            if job.get("stop", True):
                break
    agg["wall"] = now() - t0
    out.put(t="agg", agg=agg, fps=sorted(fps), runs=sorted(runs), known=hit, samples=samples)


def match_known(known, v):
    for k in known:
        if k["kind"] == v.kind and all([s in v.message for s in k.get("contains", [])]):
            return k["id"]
    return None


def replay(job, scn, out, wd):
    wd.limit = max(wd.limit, 60)
    for seed in job.get("prelude", []):
        if seed == job.get("seed"):
            continue
        c = scn.generate(core.Rnd("%s/%s/%s" % (job["prop"], job["base"], seed)), job["tier"])
        core.run_case(scn, c)
    wd.start(-1)
    try:
        ctx, v = core.run_case(scn, job["case"], keep=True)
    except OutOfMemoryError:
        out.put(t="hang", seed=-1)
        Runtime.getRuntime().halt(7)
    wd.stop()
    rec = {"t": "replay", "digest": ctx.digest.hexdigest(), "trace": ctx.trace[-200:]}
    if v is not None:
        rec.update({"kind": v.kind, "message": v.message})
        k = match_known(job.get("known", []), v)
        rec["known"] = k
    out.put(**rec)


main()
