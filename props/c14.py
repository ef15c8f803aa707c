"""C14 timings add up to the time that passed."""
import re

import numpy as np

from sim.lib import *
from sim.disk import Disk
from sim import ref

TIERS = {"quick": (220, 240), "thorough": (20000, 1200)}
RULE = ("histories of 10-30 start / stop / add / print calls under several names, mixed with reductions of drawn kinds and computing time, "
        "on 1-4 ranks with skewed clocks, stalls and drawn latencies; communication time read at drawn points; TDVP calls that enter their own timings; failing reductions included; "
        "non-trivial: at least two intervals and one reduction")
ORACLE = "ledger kept by the scenario from the simulated clock; printed numbers; the simulator's own account of the time spent in each reduction"
STUB = ["mpi4py", "clock", "disk", "thread scheduling between ranks"]

NAMES = ["sampling", "compute Eloc", "MPI communication"]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4), ndevs=(1, 2))
    if rng.random() < 0.7:
        scn["net"]["latency"] = rng.choice([[1e-6, 1e-5], [0.5, 5.0], [1e-3, 0.1]])
    ops = []
    for i in range(rng.randrange(10, 26)):
        k = rng.random()
        if k < 0.22:
            ops.append({"op": "start", "n": rng.randrange(3)})
        elif k < 0.45:
            ops.append({"op": "stop", "n": rng.randrange(3)})
        elif k < 0.55:
            ops.append({"op": "add", "n": rng.randrange(3), "x": rng.choice([0.0, 1.5, rng.random() * 10])})
        elif k < 0.63:
            ops.append({"op": "print"})
        elif k < 0.9:
            ops.append({"op": rng.choice(["sum", "mean", "var", "cov", "statmean"]), "b": rng.choice([2, 3])})
        else:
            ops.append({"op": "comm"})
    if idx % 10 == 7:
        for i in range(rng.choice([1, 2, 3])):
            ops.insert(rng.randrange(len(ops) + 1), {"op": "tdvp", "t": 0.3 * i, "int": rng.choice([None, 0, 1]), "cv": rng.random() < 0.3})
    ops.append({"op": "print"})
    ops.append({"op": "comm"})
    ops.append({"op": "comm"})
    scn["ops"] = ops
    c = [i for i, o in enumerate(ops) if o["op"] in ("sum", "mean", "var", "cov")]
    if c and rng.random() < 0.15:
        scn["faults"].append({"seam": "collective", "phase": "op%d" % rng.choice(c), "k": 0, "what": rng.choice(["mpierr", "interrupt"])})
    return scn


@guarded
def execute(scn, scratch, sm):
    disk = Disk(scratch)
    w = make_world(scn, disk=disk)
    prints = {}

    def program(ctx):
        import jax.numpy as jnp
        out = ctx.jVMC.util.OutputManager("t.hdf5")
        mpi = ctx.mpi
        led = {}
        openi = {}
        tdvp = None
        expected_print = []
        clock = lambda: w.now(ctx.rank)        # noqa
        # the package may communicate while it is set up
        mpi.get_communication_time()
        base = w.comm_time[ctx.rank]
        r = rs(scn["seed"] + ctx.rank)
        for i, o in enumerate(scn["ops"]):
            ctx.advance(float(r.rand() * 3))
            k = o["op"]
            where = "rank %d, call %d" % (ctx.rank, i)
            if k == "start":
                n = NAMES[o["n"]]
                out.start_timing(n)
                led.setdefault(n, {"total": 0.0, "last": 0.0, "newest": 0.0, "count": 0})
                openi[n] = clock()
            elif k == "stop":
                n = NAMES[o["n"]]
                if n not in openi:
                    continue
                dt = clock() - openi[n]
                out.stop_timing(n)
                led[n]["total"] += dt
                led[n]["newest"] = dt
                led[n]["count"] += 1
                openi.pop(n)
            elif k == "add":
                n = NAMES[o["n"]]
                out.add_timing(n, o["x"])
                led.setdefault(n, {"total": 0.0, "last": 0.0, "newest": 0.0, "count": 0})
                led[n]["total"] += o["x"]
                led[n]["newest"] = o["x"]
                led[n]["count"] += 1
            elif k == "print":
                expected_print.append({n: v["total"] - v["last"] for n, v in led.items()})
                for v in led.values():
                    v["last"] = v["total"]
                out.print_timings(indent="  ")
            elif k == "tdvp":
                # the solver enters its own intervals and the communication time of the call
                if tdvp is None:
                    psi = ref.make_psi(ctx, "cpxrbm", (2,), seed=3)
                    ham = ref.build(ctx, ref.gen_terms(rs(5), 2, 3, tdep=True), 2)
                    tdvp = ctx.jVMC.util.tdvp.TDVP(ctx.jVMC.sampler.ExactSampler(psi, (2,)), makeReal="real", rhsPrefactor=1.)
                    out2 = ctx.jVMC.util.OutputManager("t2.hdf5")
                old = {n: dict(v) for n, v in out2.timings.items()}
                tdvp.set_cross_validation(o["cv"])
                kw = {} if o["int"] is None else {"intStep": o["int"]}
                t0 = clock()
                tdvp(psi.get_parameters(), o["t"], psi=psi, hamiltonian=ham, outp=out2, **kw)
                elapsed = clock() - t0
                left = float(mpi.get_communication_time())
                want = w.comm_time[ctx.rank] - base
                base = w.comm_time[ctx.rank]
                eps = 1e-9 * max(1.0, 1e-6 * abs(w.now(ctx.rank)))
                for n, v in out2.timings.items():
                    d = v["total"] - old.get(n, {"total": 0.0})["total"]
                    cnt = v["count"] - old.get(n, {"count": 0})["count"]
                    expect(cnt >= 1, "wrong-count", "%s: TDVP entered %r %d times" % (where, n, cnt))
                    if n != "MPI communication":
                        expect(-eps <= d <= elapsed + eps, "wrong-value", "%s: TDVP spent %r s on %r, of %r s in total" % (where, d, n, elapsed))
                for n in ("sampling", "compute Eloc", "compute gradients", "solve TDVP eqn.", "MPI communication"):
                    expect(n in out2.timings, "wrong-names", "%s: TDVP recorded no %r" % (where, n))
                d = out2.timings["MPI communication"]["total"] - old.get("MPI communication", {"total": 0.0})["total"]
                close(d + left, want, "%s: communication time recorded by TDVP and left over" % where, rtol=1e-9, atol=1e-9,
                      scale=max(1.0, abs(want), 1e-6 * abs(w.now(ctx.rank))))
                sm.probe("tdvp_timings")
            elif k == "comm":
                got = float(mpi.get_communication_time())
                want = w.comm_time[ctx.rank] - base
                base = w.comm_time[ctx.rank]
                close(got, want, "%s: communication time" % where, rtol=1e-9, atol=1e-9, scale=max(1.0, abs(want), 1e-6 * abs(w.now(ctx.rank))))
                sm.note(round(got, 9))
            else:
                D = ctx.ndev
                x = r.randn(D, o["b"], 2)
                p = np.full((D, o["b"]), 1.0 / (D * o["b"] * ctx.size))
                ctx.phase("op%d" % i)
                try:
                    if k == "sum":
                        mpi.global_sum(jnp.array(x))
                    elif k == "mean":
                        mpi.global_mean(jnp.array(x), jnp.array(p))
                    elif k == "var":
                        mpi.global_variance(jnp.array(x), jnp.array(p))
                    elif k == "cov":
                        mpi.global_covariance(jnp.array(x), jnp.array(p))
                    else:
                        s = ctx.jVMC.stats.SampledObs(jnp.array(x), jnp.array(p))
                        s.covar()
                except (RuntimeError, KeyboardInterrupt) as e:
                    if "imulated" not in str(e):
                        raise
                ctx.phase(None)
            for n, v in led.items():
                t = out.timings[n]
                for a, b in (("total", "total"), ("newest", "newest")):
                    close(t[a], v[b], "%s: %s of %r" % (where, a, n), rtol=1e-9, atol=1e-9, scale=max(1.0, 1e-6 * abs(w.now(ctx.rank))))
                expect(t["count"] == v["count"], "wrong-count", "%s: count of %r is %s, expected %s" % (where, n, t["count"], v["count"]))
            expect(set(out.timings) == set(led), "wrong-names", "%s: timings of %s, expected %s" % (where, sorted(out.timings), sorted(led)))
        if ctx.rank == 0:
            prints["want"] = expected_print
    run_world(w, program, sm)
    blocks = []
    for r, s in w.printed:
        expect(r == 0, "print", "rank %s printed %r" % (r, s))
        for line in s.splitlines():
            if "Recorded timings" in line:
                blocks.append({})
            m = re.match(r"^\s*\* (.*): ([-0-9.einfa]+)s$", line)
            if m and blocks:
                blocks[-1][m.group(1)] = float(m.group(2))
    want = prints["want"]
    expect(len(blocks) == len(want), "print", "%d blocks of timings printed, expected %d" % (len(blocks), len(want)))
    for n, (b, v) in enumerate(zip(blocks, want)):
        expect(set(b) == set(v), "print", "print %d lists %s, expected %s" % (n, sorted(b), sorted(v)))
        for k in v:
            close(b[k], v[k], "print %d: %s" % (n, k), rtol=1e-6, atol=2e-6)
    sm.d["nontrivial"] = sum(1 for o in scn["ops"] if o["op"] == "stop") > 1 and any(o["op"] in ("sum", "mean", "var", "cov") for o in scn["ops"])
