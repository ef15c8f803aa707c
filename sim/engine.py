"""Campaign driver: seeded runs over a pool of worker processes, confirmation,
minimisation, replay files, evidence."""

import hashlib
import importlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def load_prop(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("props." + pid.lower())


def scenario_for(mod, pid, tier, seed, idx):
    rng = random.Random("%s/%s/%d" % (pid, seed, idx))
    return mod.generate(rng, idx, tier)


# ---------------------------------------------------------------- worker side
def run_scenario(mod, scn, scratch):
    """-> result dict (pure function of the scenario and the code under test)."""
    from .world import Violation
    d = tempfile.mkdtemp(prefix="run", dir=scratch)
    t0 = time.time()
    res = {"status": "ok"}
    info = {}
    try:
        try:
            info = mod.execute(scn, d) or {}
        except Violation as v:
            res = {"status": "violation", "kind": v.kind, "msg": v.msg[:1500]}
            info = getattr(v, "info", {}) or {}
        except MemoryError:
            res = {"status": "harness", "msg": traceback.format_exc()[-1500:]}
        except OSError as e:
            if e.errno in (28, 12, 24):
                res = {"status": "harness", "msg": traceback.format_exc()[-1500:]}
            else:
                res = {"status": "violation", "kind": "oracle-exception", "msg": traceback.format_exc()[-1500:]}
        except Exception:
            # the oracle could not even evaluate what the code returned
            res = {"status": "violation", "kind": "oracle-exception", "msg": traceback.format_exc()[-1500:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.update(info)
    res["wall"] = time.time() - t0
    return res


def worker_main(argv):
    pid, cache, scratch = argv
    from . import boot
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    err = boot.boot(cache)
    mod = load_prop(pid)
    out.write(json.dumps({"ready": 1, "boot_error": err}) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if "scn" in req:
            scn = req["scn"]
        else:
            scn = scenario_for(mod, pid, req["tier"], req["seed"], req["idx"])
        r = run_scenario(mod, scn, scratch)
        r["idx"] = req.get("idx")
        if req.get("want_scn") or r["status"] != "ok":
            r["scn"] = scn
        out.write(json.dumps(r) + "\n")
        out.flush()


# ---------------------------------------------------------------- driver side
class Worker:
    def __init__(self, pid, cache, scratch):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "nopyc")
        env.pop("PYTHONPATH", None)
        self.err = open(os.path.join(scratch, "worker-%d-%d.err" % (os.getpid(), id(self))), "wb")
        self.p = subprocess.Popen([PY, "-W", "ignore", "-c",
                                   "import sys; sys.path.insert(0, %r); import sim.boot; import sim.engine as e; "
                                   "e.worker_main(sys.argv[1:])" % VERIF, pid, cache, scratch],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=scratch)
        self.buf = b""
        self.t0 = time.time()
        self.req = None
        self.ready = False

    def send(self, req):
        self.req = req
        self.t0 = time.time()
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()

    def fileno(self):
        return self.p.stdout.fileno()

    def poll_lines(self):
        b = os.read(self.fileno(), 1 << 20)
        if not b:
            return None
        self.buf += b
        out = []
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(l))
        return out

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        try:
            self.err.close()
        except Exception:
            pass

    def tail(self):
        try:
            return open(self.err.name, "rb").read()[-1500:].decode(errors="replace")
        except Exception:
            return ""


RUN_TIMEOUT = 240


def one(pid, cache, scratch, req, timeout=RUN_TIMEOUT):
    """One request in a fresh process."""
    w = Worker(pid, cache, scratch)
    try:
        sent = False
        t0 = time.time()
        while True:
            left = timeout + 60 - (time.time() - t0)
            if left <= 0:
                return {"status": "hang", "kind": "hang", "msg": "no answer within %d s" % timeout}
            r, _, _ = select.select([w], [], [], left)
            if not r:
                continue
            lines = w.poll_lines()
            if lines is None:
                return {"status": "died", "kind": "crash", "msg": "simulation process died: " + w.tail()}
            for m in lines:
                if m.get("ready"):
                    w.send(req)
                    sent = True
                else:
                    return m
    finally:
        w.kill()


def campaign(pid, tier, seed, count, budget, nworkers, cache, scratch, first=0, stop_on_violation=True):
    """Runs scenario indices first..first+count-1; returns list of results."""
    results = []
    todo = list(range(first, first + count))[::-1]
    workers = [Worker(pid, cache, scratch) for _ in range(min(nworkers, max(1, count)))]
    t0 = time.time()
    bad = []
    deaths = 0
    try:
        while True:
            stop = (bad and stop_on_violation) or (time.time() - t0 > budget)
            busy = [w for w in workers if w.req is not None]
            starting = [w for w in workers if not w.ready]
            if not busy and (not todo or stop):
                break
            if not workers:
                break
            r, _, _ = select.select(workers, [], [], 5.0)
            for w in r:
                lines = w.poll_lines()
                if lines is None:
                    tail = w.tail()
                    w.kill()
                    workers.remove(w)
                    deaths += 1
                    if w.req is not None:
                        res = {"status": "died", "kind": "crash", "msg": "simulation process died: " + tail, "idx": w.req["idx"]}
                        results.append(res)
                        bad.append(res)
                    elif deaths > 16:
                        raise RuntimeError("workers do not start: " + tail)
                    if todo and deaths < 16:
                        workers.append(Worker(pid, cache, scratch))
                    continue
                for m in lines:
                    if m.get("ready"):
                        w.ready = True
                        if m.get("boot_error"):
                            res = {"status": "violation", "kind": "import", "msg": m["boot_error"], "idx": first}
                            results.append(res)
                            bad.append(res)
                    else:
                        w.req = None
                        results.append(m)
                        if m["status"] != "ok":
                            bad.append(m)
                    stop = (bad and stop_on_violation) or (time.time() - t0 > budget)
                    if todo and not stop and w.ready and w.req is None:
                        idx = todo.pop()
                        w.send({"idx": idx, "seed": seed, "tier": tier, "want_scn": idx - first < 3})
            now = time.time()
            for w in list(workers):
                if w.req is not None and now - w.t0 > RUN_TIMEOUT:
                    res = {"status": "hang", "kind": "hang", "msg": "no answer within %d s" % RUN_TIMEOUT, "idx": w.req["idx"]}
                    results.append(res)
                    bad.append(res)
                    w.kill()
                    workers.remove(w)
            if bad and stop_on_violation:
                # let runs already started finish for at most a little while
                if now - t0 > budget or all(w.req is None for w in workers):
                    break
                if not hasattr(campaign, "_grace") or campaign._grace[0] is not bad:
                    campaign._grace = (bad, now)
                if now - campaign._grace[1] > 10:
                    break
    finally:
        for w in workers:
            w.kill()
    results.sort(key=lambda r: (r.get("idx") is None, r.get("idx")))
    return results, time.time() - t0


# ---------------------------------------------------------------- minimisation
def generic_shrinks(scn):
    """Simpler variants of a scenario, most drastic first."""
    def cp():
        return json.loads(json.dumps(scn))
    if scn.get("faults"):
        for i in range(len(scn["faults"])):
            c = cp()
            del c["faults"][i]
            yield c
    for key in ("jobs", "calls"):
        if isinstance(scn.get(key), list) and len(scn[key]) > 1:
            for i in range(len(scn[key])):
                c = cp()
                del c[key][i]
                yield c
    for i, j in enumerate(scn.get("jobs") or []):
        if isinstance(j, dict):
            for sub in generic_shrinks(j):
                c = cp()
                c["jobs"][i] = sub
                yield c
    if isinstance(scn.get("ops"), list) and len(scn["ops"]) > 1:
        n = len(scn["ops"])
        c = cp()
        c["ops"] = c["ops"][:n // 2]
        yield c
        c = cp()
        c["ops"] = c["ops"][n // 2:]
        yield c
        for i in range(n):
            c = cp()
            del c["ops"][i]
            yield c
    if scn.get("size", 1) > 1:
        c = cp()
        c["size"] = 1
        yield c
        if scn["size"] > 2:
            c = cp()
            c["size"] = scn["size"] - 1
            yield c
    if scn.get("ndev", 1) != 1:
        c = cp()
        c["ndev"] = 1
        yield c
        if isinstance(scn["ndev"], int) and scn["ndev"] > 2:
            c = cp()
            c["ndev"] = 2
            yield c
    if scn.get("net"):
        c = cp()
        c["net"] = {}
        yield c
    sched = scn.get("sched") or {}
    if sched.get("choices") != []:
        c = cp()
        c["sched"] = {"choices": []}
        yield c
    if sched.get("choices"):
        n = len(sched["choices"])
        for k in (n // 2, n // 4, n - 1):
            c = cp()
            c["sched"]["choices"] = sched["choices"][:k]
            yield c


def minimise(pid, mod, scn, kind, cache, scratch, budget, log):
    t0 = time.time()
    tries = 0
    best = scn
    improved = True
    w = None
    while improved and time.time() - t0 < budget:
        improved = False
        cands = list(getattr(mod, "shrink", lambda s: [])(best)) + list(generic_shrinks(best))
        for c in cands:
            if time.time() - t0 > budget:
                break
            if hasattr(mod, "valid") and not mod.valid(c):
                continue
            if json.dumps(c, sort_keys=True) == json.dumps(best, sort_keys=True):
                continue
            tries += 1
            r = one(pid, cache, scratch, {"scn": c, "idx": -1}, timeout=60)
            if r.get("status") == "violation" and r.get("kind") == kind:
                best = c
                improved = True
                break
    return best, tries


# ---------------------------------------------------------------- evidence
def evidence(pid, tier, seed, mod, results, wall, violations, extra=None):
    done = [r for r in results if r["status"] in ("ok", "violation")]
    faults, probes = {}, {}
    for r in done:
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
    nontrivial = {r.get("digest") for r in done if r.get("nontrivial") and r.get("digest")}
    inter = {r.get("interleaving") for r in done if r.get("interleaving")}
    samples = []
    for r in done:
        if r.get("scn") is not None and len(samples) < 3:
            samples.append({"index": r["idx"], "scenario": _trim(r["scn"]), "digest": r.get("digest"),
                            "events": r.get("nevents"), "outcome": r["status"]})
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs_per_hour": round(3600.0 * len(done) / max(wall, 1e-9)),
            "seeds": "base seed %s, run indices %s..%s (one index = one scenario seed)" % (
                seed, done[0]["idx"] if done else None, done[-1]["idx"] if done else None),
            "simulated_time_s": round(sum(r.get("simtime") or 0.0 for r in done), 3),
            "scheduling_decisions": sum(r.get("steps") or 0 for r in done),
            "events": sum(r.get("nevents") or 0 for r in done),
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the sequence of (rank, seam operation) pairs of a run",
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "components_real": mod.REAL if hasattr(mod, "REAL") else DEFAULT_REAL,
            "components_stubbed": mod.STUB if hasattr(mod, "STUB") else DEFAULT_STUB,
            "oracle": mod.ORACLE,
        },
        "wall_s": round(wall, 2),
        "violations": violations,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


DEFAULT_REAL = ["the whole jVMC package (one private instance per rank)", "jax / XLA on 4 host devices", "flax", "numpy"]
DEFAULT_STUB = ["mpi4py (in-process simulated communicator)", "clock", "thread scheduling between ranks"]


def _trim(x, n=2000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and ("property=%s " % pid) in l:
                out.append(l[len("known:"):].strip())
    return out


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_prop(pid)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 2 << 30:
            base = None
    scratch = tempfile.mkdtemp(prefix="jvmcsim-", dir=base)
    cache = os.path.join(scratch, "xla")
    os.mkdir(cache)
    try:
        return _check(pid, tier, seed, mod, cache, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(pid, tier, seed, mod, cache, scratch):
    count, budget = mod.TIERS[tier]
    nw = int(os.environ.get("SIM_WORKERS", "8"))
    first = int(os.environ.get("SIM_FIRST", "0"))
    count = int(os.environ.get("SIM_COUNT", count))
    t0 = time.time()
    results, _ = campaign(pid, tier, seed, count, budget, nw, cache, scratch, first)
    for k in known_findings(pid):
        print("KNOWN-FINDING: %s" % k)
    if os.environ.get("SIM_DIGESTS"):
        with open(os.environ["SIM_DIGESTS"], "w") as fh:
            for r in sorted(results, key=lambda r: r["idx"]):
                fh.write("%s %d %s %s\n" % (pid, r["idx"], r["status"], r.get("digest")))
    bad = [r for r in results if r["status"] in ("violation", "hang", "died")]
    harness = [r for r in results if r["status"] == "harness"]
    confirmed = None
    unrepro = []
    for r in bad[:4]:
        again = one(pid, cache, scratch, {"idx": r["idx"], "seed": seed, "tier": tier, "want_scn": True})
        if again.get("status") in ("violation", "hang", "died"):
            confirmed = again
            confirmed["idx"] = r["idx"]
            break
        unrepro.append(r)
    wall = time.time() - t0
    ok = [r for r in results if r["status"] == "ok"]
    if confirmed is None:
        evidence(pid, tier, seed, mod, results, wall, 0,
                 {"unreproduced": [{"idx": r["idx"], "msg": r.get("msg")} for r in unrepro],
                  "harness_errors": len(harness)})
        if not ok or len(harness) > len(ok) or len(unrepro) >= 4:
            for r in (harness + unrepro)[:3]:
                print("HARNESS-ERROR %s" % r.get("msg", "")[-800:])
            print("check %s: no verdict (%d runs ok, %d harness errors, %d unreproduced)" % (pid, len(ok), len(harness), len(unrepro)))
            return 2
        print("check %s %s: property held on %d simulated runs (%.1f s)" % (pid, tier, len(ok), wall))
        return 0
    # ---- violation: minimise, write replay file, verify replay
    kind = confirmed.get("kind")
    scn = confirmed.get("scn") or scenario_for(mod, pid, tier, seed, confirmed["idx"])
    best, tries = scn, 0
    if confirmed["status"] == "violation":
        best, tries = minimise(pid, mod, scn, kind, cache, scratch,
                               float(os.environ.get("SIM_MIN_BUDGET", mod.__dict__.get("MIN_BUDGET", 60))), print)
    final = one(pid, cache, scratch, {"scn": best, "idx": confirmed["idx"]}, timeout=120)
    if final.get("status") == "ok":
        best, final = scn, confirmed
    path = os.path.join(VERIF, "evidence", "replay-%s-%d-%d.json" % (pid, seed, confirmed["idx"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        json.dump({"property": pid, "seed": seed, "index": confirmed["idx"], "tier": tier, "kind": kind,
                   "message": final.get("msg"), "digest": final.get("digest"), "scenario": best,
                   "original_scenario": scn, "minimisation_runs": tries, "trace": final.get("trace")}, fh, indent=1)
    evidence(pid, tier, seed, mod, results, time.time() - t0, len([r for r in bad]),
             {"violation": {"kind": kind, "message": final.get("msg"), "replay": path}})
    print("%s [%s] %s" % (pid, kind, (final.get("msg") or confirmed.get("msg") or "").strip()))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    mod = load_prop(pid)
    scratch = tempfile.mkdtemp(prefix="jvmcsim-")
    cache = os.path.join(scratch, "xla")
    os.mkdir(cache)
    try:
        r = one(pid, cache, scratch, {"scn": rec["scenario"], "idx": rec["index"]})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "msg", "digest")}, indent=1))
    if r["status"] in ("violation", "hang", "died"):
        same = r.get("kind") == rec["kind"] and (rec.get("digest") in (None, r.get("digest")))
        print("reproduced %s" % ("exactly" if same else "with a different trace"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main(argv):
    if argv[0] == "check":
        return check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if argv[0] == "replay":
        return replay(argv[1])
    raise SystemExit("usage: check <ID> [quick|thorough] | replay <file>")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
