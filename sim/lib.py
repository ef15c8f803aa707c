"""Shared by the property modules: scenario generation, world construction,
run summaries, comparisons, small reference networks."""

import random

import numpy as np

from .world import World, Violation

POLICIES = ["uniform", "sticky", "roundrobin", "prio", "starve"]


def gen_sched(rng, size):
    s = {"seed": rng.randrange(1 << 30), "policy": rng.choice(POLICIES)}
    if s["policy"] == "starve":
        s["starve"] = rng.randrange(max(1, size))
    return s


def gen_net(rng):
    """Swarm: each run enables a random subset of what the network / clock may do."""
    net = {}
    if rng.random() < 0.5:
        net["eager"] = rng.choice([0.0, 0.3, 1.0])
    if rng.random() < 0.3:
        net["stall"] = rng.choice([0.05, 0.3])
    if rng.random() < 0.3:
        net["skew"] = rng.choice([1e-3, 1e3, 1e6])
    if rng.random() < 0.2:
        net["shuffle"] = False
    if rng.random() < 0.3:
        net["latency"] = rng.choice([[0.0, 0.0], [1e-6, 1e-5], [0.5, 5.0]])
    return net


def gen_base(rng, idx, sizes=(1, 2, 3, 4), ndevs=(1, 2, 3, 4)):
    """Rank / device layout is stratified over the index so that every layout is met
    early; everything else is drawn."""
    lay = [(r, d) for r in sizes for d in ndevs if r * d > 1] or [(sizes[0], ndevs[0])]
    order = random.Random(12345)
    order.shuffle(lay)
    r, d = lay[idx % len(lay)] if rng.random() < 0.8 else (rng.choice(sizes), rng.choice(ndevs))
    return {"size": r, "ndev": d, "seed": rng.randrange(1 << 30), "sched": gen_sched(rng, r), "net": gen_net(rng),
            "dmode": rng.choice(["visible", "visible", "select"]), "faults": []}


def widen(scn, rng, p=0.08, sizes=(5, 6, 8)):
    """Now and then a job with more processes than usual."""
    if rng.random() < p:
        scn["size"] = rng.choice(sizes)
        scn["ndev"] = min(scn["ndev"], 2)
        scn["sched"] = gen_sched(rng, scn["size"])
    return scn


def make_world(scn, disk=None, faults=None, salt=0, **kw):
    net = dict(scn.get("net") or {})
    if "latency" in net:
        net["latency"] = tuple(net["latency"])
    return World(scn["size"], scn["ndev"], sched=scn.get("sched"), seed=scn["seed"] + salt, disk=disk,
                 faults=scn.get("faults") if faults is None else faults, net=net,
                 device_mode=scn.get("dmode", "visible"), **kw)


class Summary:
    """Accumulates over the worlds of one run."""

    def __init__(self):
        self.d = {"faults": {}, "probes": {}, "steps": 0, "nevents": 0, "simtime": 0.0, "nontrivial": False}
        self.dig = []
        self.il = []
        self.trace = []

    def add(self, w):
        for k, v in w.fault_counts.items():
            self.d["faults"][k] = self.d["faults"].get(k, 0) + v
        for k, v in w.probes.items():
            self.d["probes"][k] = self.d["probes"].get(k, 0) + v
        self.d["steps"] += w.steps
        self.d["nevents"] += w.nevents
        self.d["simtime"] += max([rk.local for rk in w.ranks] or [0.0])
        self.dig.append(w.digest())
        self.il.append(w.interleaving())
        self.trace.append({"choices": w.sched.record[:400],
                           "events": ["%s %s %s" % e for e in w.events[:200]]})

    def fault(self, k, n=1):
        self.d["faults"][k] = self.d["faults"].get(k, 0) + n

    def probe(self, k, n=1):
        self.d["probes"][k] = self.d["probes"].get(k, 0) + n

    def note(self, x):
        """Mixes a value (a result of the run) into the digest."""
        import hashlib
        if isinstance(x, np.ndarray) or hasattr(x, "dtype"):
            b = np.ascontiguousarray(np.asarray(x)).tobytes()
        else:
            b = repr(x).encode()
        self.dig.append(hashlib.sha256(b).hexdigest())

    def info(self):
        import hashlib
        out = dict(self.d)
        out["digest"] = hashlib.sha256("".join(self.dig).encode()).hexdigest()[:32]
        out["interleaving"] = hashlib.sha256("".join(self.il).encode()).hexdigest()[:32]
        out["trace"] = self.trace
        return out


def guarded(fn):
    """Property modules' execute(): attach the run summary to a violation."""
    def execute(scn, scratch):
        sm = Summary()
        try:
            fn(scn, scratch, sm)
        except Violation as v:
            v.info = sm.info()
            raise
        out = sm.info()
        out.pop("trace", None)
        return out
    return execute


def run_world(w, program, sm, clean=True):
    w.run(program)
    sm.add(w)
    if clean:
        return w.check_clean()
    for kind, msg in w.problems:
        raise Violation(kind, msg)
    for rk in w.ranks:
        if rk.outcome and rk.outcome[0] == "exc" and isinstance(rk.outcome[1], Violation):
            raise rk.outcome[1]
    return [rk.outcome for rk in w.ranks]


# ---------------------------------------------------------------- comparisons
def close(got, want, what, rtol=1e-9, atol=1e-12, scale=None, kind="wrong-value"):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation("wrong-shape", "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    sc = np.max(np.abs(want)) if scale is None else scale
    err = np.abs(got - want)
    bad = ~(err <= atol + rtol * sc)
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), got.shape)
        raise Violation(kind, "%s: got %r, expected %r at %s (max error %.3g)" % (
            what, got[i].item(), want[i].item(), tuple(int(k) for k in i), float(np.nan_to_num(err, nan=np.inf).max())))


def same_bits(vals, what, kind="rank-divergence"):
    a = np.asarray(vals[0])
    for r, v in enumerate(vals[1:], 1):
        b = np.asarray(v)
        if a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
            if a.shape == b.shape and np.array_equal(a, b, equal_nan=True):
                continue
            raise Violation(kind, "%s differs between rank 0 and rank %d: %s vs %s" % (
                what, r, str(a)[:200], str(b)[:200]))


def expect(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def rs(seed):
    return np.random.RandomState(seed % (1 << 32))
