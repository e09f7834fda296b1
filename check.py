#!/usr/bin/env python3
"""
Driver: check.py run PROP [quick|thorough]     seeded search, verdict by exit code
        check.py replay FILE                   re-execute one recorded violation
        check.py case PROP SEED                print/execute one seed
        check.py determinism PROP [N]          every seed twice, different workers and orders
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, "evidence")
JAVA = ["java", "-XX:+UseSerialGC", "-Xmx1500m", "-Xss8m", "-XX:-UsePerfData", "-jar", "/usr/share/java/jython.jar",
        "-Dpython.home=%s" % os.path.dirname(os.path.dirname(os.path.realpath("/usr/bin/jython"))),
        "-Dpython.executable=/usr/bin/jython", "-Dpython.cachedir.skip=true", "-B"]
PLAN = json.load(open(os.path.join(HERE, "plan.json")))
KNOWN = json.load(open(os.path.join(HERE, "known_findings.json")))


def environ():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "JYTHON", "CLASSPATH", "JAVA_TOOL"))}
    env.update({"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8",
                "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1"})
    return env


def purge_classes():
    # Jython reads x$py.class in place of x.py: none may lie about
    for root, dirs, files in os.walk(os.environ.get("VSIM_REPO", "/repo")):
        if ".git" in dirs:
            dirs.remove(".git")
        for f in files:
            if f.endswith("$py.class"):
                os.unlink(os.path.join(root, f))


class Pool:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vsim-")
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, job):
        self.n += 1
        base = os.path.join(self.dir, "w%d" % self.n)
        job = dict(job, out=base + ".out")
        open(base + ".out", "w").close()
        with open(base + ".job", "w") as f:
            json.dump(job, f)
        err = open(base + ".err", "w")
        p = subprocess.Popen(JAVA + [os.path.join(HERE, "vsim", "worker.py"), base + ".job"],
                             stdout=err, stderr=err, env=environ(), cwd=self.dir)
        p.base = base
        p.job = job
        return p

    def finish(self, p, timeout):
        timed = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            timed = True
        recs = []
        for line in open(p.base + ".out"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
        if timed:
            recs.append({"t": "timeout"})
        if not any(r["t"] in ("done", "hang", "timeout") for r in recs):
            recs.append({"t": "harness", "error": "worker died (%s): %s" % (p.returncode, open(p.base + ".err").read()[-3000:])})
        return recs


def known_for(prop):
    return [k for k in KNOWN["findings"] if k["property"] == prop]


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    t0 = time.time()
    purge_classes()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replays")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replays", f))
    workers = min(8, os.cpu_count() or 1)
    total = plan["runs"][tier]
    deadline = plan.get("deadline", {}).get(tier, 240 if tier == "quick" else 1500)
    pool = Pool()
    try:
        dig = set(range(0, total, max(1, total // 24)))
        jobs = []
        for w in range(workers):
            seeds = list(range(w, total, workers))
            jobs.append(pool.start({"mode": "search", "prop": prop, "base": seed, "tier": tier, "seeds": seeds,
                                    "deadline": deadline, "known": known_for(prop),
                                    "digests": [s for s in seeds if s in dig], "hang": plan.get("hang", 45)}))
        results = [pool.finish(p, deadline + 300) for p in jobs]
        agg = {"runs": 0, "steps": 0, "simtime": 0, "faults": {}, "probes": {}, "configs": {}}
        runset, fps, samples, digests, viols, hangs, harness, known = set(), set(), [], {}, [], [], [], {}
        raws = {}
        for p, recs in zip(jobs, results):
            for r in recs:
                if r["t"] == "agg":
                    a = r["agg"]
                    for k in ("runs", "steps", "simtime"):
                        agg[k] += a[k]
                    for k in ("faults", "probes", "configs"):
                        for n, v in a[k].items():
                            agg[k][n] = agg[k].get(n, 0) + v
                    fps.update(r["fps"])
                    runset.update(r["runs"])
                    samples.extend(r["samples"])
                    for n, v in r["known"].items():
                        known[n] = known.get(n, 0) + v
                elif r["t"] == "digest":
                    digests[r["seed"]] = r["d"]
                elif r["t"] == "raw":
                    raws[r["seed"]] = r
                elif r["t"] == "violation":
                    viols.append(r)
                elif r["t"] == "hang":
                    hangs.append(r)
                elif r["t"] == "harness":
                    harness.append(r["error"])
                elif r["t"] == "timeout":
                    harness.append("worker timed out")
        done = {v["seed"] for v in viols}
        for s, r in raws.items():
            if s not in done:
                # its shrinking got stuck: report it as it was found
                viols.append(dict(r, t="violation"))
        rep = []
        # determinism: the sampled seeds once more, all in one other process, in the opposite order
        mismatch = []
        recheck = sorted(digests, reverse=True)
        if recheck and not viols:
            p = pool.start({"mode": "search", "prop": prop, "base": seed, "tier": tier, "seeds": recheck, "stop": False,
                            "maxshrink": 0, "deadline": 120, "known": known_for(prop), "alldigests": True})
            for r in pool.finish(p, 300):
                if r["t"] == "digest" and digests[r["seed"]] != r["d"]:
                    mismatch.append(r["seed"])
        for h in hangs:
            # isolated second attempt
            c = generate_case(pool, prop, seed, tier, h["seed"])
            p = pool.start({"mode": "replay", "prop": prop, "base": seed, "tier": tier, "case": c, "hang": 90})
            if any(r["t"] in ("hang", "timeout") for r in pool.finish(p, 240)):
                viols.append({"seed": h["seed"], "kind": "hang", "case": c,
                              "message": "no progress: the run does not come to an end (a run takes milliseconds)"})
            else:
                harness.append("worker stalled on seed %s but the seed runs alone" % h["seed"])
        viols.sort(key=lambda v: (len(json.dumps(v["case"])), v["seed"]))
        confirmed = []
        for v in viols[:4]:
            path = os.path.join(EVID, "replays", "%s-%s-%s.json" % (prop, seed, v["seed"]))
            doc = {"property": prop, "base": seed, "tier": tier, "seed": v["seed"], "kind": v["kind"],
                   "message": v["message"], "case": v["case"], "prelude": v.get("prelude", [])}
            with open(path, "w") as f:
                json.dump(doc, f, indent=1, sort_keys=True)
            if v["kind"] == "hang":
                confirmed.append((v, path))
                continue
            ok, _out = do_replay(pool, doc)
            if not ok and not doc["prelude"]:
                # perhaps earlier runs in the same process matter
                idx = v["seed"] % workers
                doc["prelude"] = [s for s in range(idx, total, workers) if s <= v["seed"]]
                src = raws.get(v["seed"])
                if src:
                    doc["case"] = src["case"]
                with open(path, "w") as f:
                    json.dump(doc, f, indent=1, sort_keys=True)
                ok, _out = do_replay(pool, doc)
            if ok:
                confirmed.append((v, path))
                if len(confirmed) >= 1:
                    break
            else:
                harness.append("seed %s: violation %s did not replay in a fresh process" % (v["seed"], v["kind"]))
        wall = time.time() - t0
        write_evidence(prop, tier, seed, agg, fps, runset, samples, digests, recheck, mismatch, known, confirmed, wall, workers, harness)
        for k in known_for(prop):
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, k["what"], known.get(k["id"], 0)))
        for v, path in confirmed:
            print("violation of %s, seed %s, kind %s" % (prop, v["seed"], v["kind"]))
            print(v["message"][:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s %s: %d runs, %d steps, %d distinct states, faults %s, %.1fs, determinism %d/%d" % (
            prop, tier, agg["runs"], agg["steps"], len(fps), json.dumps(agg["faults"], sort_keys=True), wall,
            len(recheck) - len(mismatch), len(recheck)))
        if os.environ.get("VSIM_PROBES"):
            print(json.dumps(agg["probes"], indent=1, sort_keys=True))
        if mismatch:
            print("WARNING: seeds with differing traces: %s" % mismatch)
        if confirmed:
            return 1
        if harness:
            for h in harness:
                print("HARNESS: " + h)
            return 2
        return 0
    finally:
        pool.close()


def generate_case(pool, prop, base, tier, seed):
    p = pool.start({"mode": "generate", "prop": prop, "base": base, "tier": tier, "seed": seed})
    for r in pool.finish(p, 120):
        if r["t"] == "case":
            return r["case"]
    raise SystemExit("cannot generate the case of seed %s" % seed)


def do_replay(pool, doc):
    if doc["kind"] == "hang":
        p = pool.start({"mode": "replay", "prop": doc["property"], "base": doc["base"], "tier": doc["tier"], "case": doc["case"],
                        "hang": 90})
        recs = pool.finish(p, 240)
        return any(r["t"] in ("hang", "timeout") for r in recs), recs
    p = pool.start({"mode": "replay", "prop": doc["property"], "base": doc["base"], "tier": doc["tier"], "case": doc["case"],
                    "prelude": doc.get("prelude", []), "seed": doc["seed"]})
    recs = pool.finish(p, 600)
    return any(r["t"] == "replay" and r.get("kind") == doc["kind"] for r in recs), recs


def write_evidence(prop, tier, seed, agg, fps, runset, samples, digests, recheck, mismatch, known, confirmed, wall, workers, harness):
    plan = PLAN[prop]
    hours = max(wall, 0.001) / 3600.0
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(runset),
            "rule": plan["rule"] + "  A run is non-trivial if it reached at least two recorded states, and distinct if its "
                    "whole event trace (operations, schedule, faults and every answer) differs from that of every other run.",
            "samples": sorted(samples, key=lambda x: len(json.dumps(x)))[:3],
            "distinct_states": len(fps),
            "distinct_states_measure": plan["measure"],
            "simulated_steps": agg["steps"],
            "runs_per_hour": int(agg["runs"] / hours),
            "simulated_seconds": agg["simtime"],
            "faults_injected": agg["faults"],
            "rare_condition_probes": agg["probes"],
            "configurations": agg["configs"],
            "workers": workers,
            "determinism_recheck": {"seeds_run_twice": len(recheck), "differing": mismatch},
            "components_real": plan["real"],
            "components_stub": plan["stub"],
            "known_findings_met": known,
            "harness_failures": harness,
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 2),
        "violations": [{"seed": v["seed"], "kind": v["kind"], "replay": path, "message": v["message"][:2000]} for v, path in confirmed],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)


def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        # nothing is built ahead: every check imports the working tree
        purge_classes()
        p = subprocess.run(JAVA + ["-c", "print 6*7"], env=environ(), stdout=subprocess.PIPE, cwd="/")
        print("jython answers %s" % p.stdout.decode().strip())
        return 0 if p.stdout.strip() == b"42" else 2
    if cmd == "run":
        return run(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
    pool = Pool()
    try:
        purge_classes()
        if cmd == "replay":
            doc = json.load(open(sys.argv[2]))
            ok, recs = do_replay(pool, doc)
            for r in recs:
                if r["t"] == "replay":
                    print("\n".join(r["trace"]))
                    print(r.get("kind"), r.get("message"))
                elif r["t"] != "done":
                    print(r)
            if ok:
                print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[2]))
            return 1 if ok else 0
        if cmd == "case":
            prop, s = sys.argv[2], int(sys.argv[3])
            base = int(os.environ.get("VERIF_SEED", "1"))
            tier = os.environ.get("VERIF_TIER", "quick")
            c = generate_case(pool, prop, base, tier, s)
            print(json.dumps(c, indent=1, sort_keys=True))
            p = pool.start({"mode": "replay", "prop": prop, "base": base, "tier": tier, "case": c})
            for r in pool.finish(p, 300):
                if r["t"] == "replay":
                    print("\n".join(r["trace"]))
                    print(r.get("kind"), r.get("message"))
                else:
                    print(r)
            return 0
        if cmd == "determinism":
            prop = sys.argv[2]
            n = int(sys.argv[3]) if len(sys.argv) > 3 else 200
            seen = []
            for order, parts in ((1, 1), (-1, 3), (1, 8)):
                jobs = []
                for w in range(parts):
                    seeds = list(range(w, n, parts))[::order]
                    jobs.append(pool.start({"mode": "search", "prop": prop, "base": 1, "tier": "quick", "seeds": seeds,
                                            "stop": False, "maxshrink": 0, "deadline": 900, "known": known_for(prop),
                                            "alldigests": True}))
                d = {}
                for p in jobs:
                    for r in pool.finish(p, 1200):
                        if r["t"] == "digest":
                            d[r["seed"]] = r["d"]
                        elif r["t"] in ("harness", "hang"):
                            print(r)
                seen.append(d)
            bad = [s for s in range(n) if len({d.get(s) for d in seen}) != 1]
            print("%s: %d seeds, 3 times each (1, 3 and 8 processes): %d differ %s" % (prop, n, len(bad), bad[:10]))
            return 1 if bad else 0
    finally:
        pool.close()
    return 2


if __name__ == "__main__":
    sys.exit(main())
