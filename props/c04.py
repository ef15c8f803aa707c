"""C04 sample accounting."""
import math

import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (72, 240), "thorough": (4000, 1500)}
RULE = ("R ranks x D devices; a history of 4-8 sampling calls on two samplers (Markov chains / direct) with drawn numbers of samples, "
        "chains and multiples, default numbers changed in between, failing communication with retry, plus splits of work without "
        "devices; non-trivial: more than one rank or device")
ORACLE = "counting over all ranks: returned = reported >= requested, excess bound, multiples per device, weights sum to one, contiguous index ranges"

NS = [1, 2, 5, 7, 13, 20, 61]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4))
    widen(scn, rng)
    scn["samplers"] = []
    for j in range(rng.choice([1, 2])):
        gen = rng.random() < 0.5
        scn["samplers"].append({"ansatz": rng.choice(["gtable", "flat"]) if gen else "rtable",
                                "chains": rng.choice([1, 2, 3, 4]), "mu": rng.choice([2, 2, 1]),
                                "therm": rng.choice([0, 1]), "sweep": 1, "n": rng.choice(NS),
                                "key": rng.randrange(1 << 30)})
    ops = []
    for i in range(rng.randrange(3, 6)):
        k = rng.random()
        if k < 0.5:
            ops.append({"op": "sample", "which": rng.randrange(2), "n": rng.choice(NS + [None]), "m": rng.choice([1, 1, 2, 3, 4, 6])})
        elif k < 0.62:
            ops.append({"op": "default", "which": rng.randrange(2), "n": rng.choice(NS)})
        elif k < 0.8:
            ops.append({"op": "split", "n": rng.choice([0, 1, 2, 3, 5, 7, 16, 81, 100, 1001, 65537])})
        else:
            ops.append({"op": "splitdev", "n": rng.choice(NS), "c": rng.choice([1, 2, 3, 7])})
    ops.append({"op": "sample", "which": 0, "n": rng.choice(NS), "m": rng.choice([1, 2, 3])})
    scn["ops"] = ops
    if rng.random() < 0.2:
        c = [i for i, o in enumerate(ops) if o["op"] == "sample"]
        scn["faults"].append({"seam": "collective", "phase": "op%d" % rng.choice(c), "k": 0, "what": rng.choice(["mpierr", "interrupt"])})
    return scn


@guarded
def execute(scn, scratch, sm):
    L = 3
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        ss = []
        for c in scn["samplers"]:
            psi = ref.make_psi(ctx, c["ansatz"], (L,), seed=7)
            ss.append(J.sampler.MCSampler(psi, (L,), c["key"], updateProposer=J.sampler.propose_spin_flip, numChains=c["chains"],
                                          numSamples=c["n"], thermalizationSweeps=c["therm"], sweepSteps=c["sweep"], mu=c["mu"]))
        out = []
        last = {}
        for i, o in enumerate(scn["ops"]):
            if o["op"] == "split":
                n, g = ctx.mpi.distribute_sampling(o["n"])
                f = ctx.mpi.first_sample_id()
                out.append((int(n), int(g), int(f)))
                continue
            if o["op"] == "splitdev":
                n, g = ctx.mpi.distribute_sampling(o["n"], localDevices=ctx.ndev, numChainsPerDevice=o["c"])
                out.append((int(n), int(g)))
                continue
            j = o["which"] % len(ss)
            if o["op"] == "default":
                ss[j].set_number_of_samples(o["n"])
                out.append(None)
                continue
            kw = {} if o["n"] is None else {"numSamples": o["n"]}
            if o["m"] != 1:
                kw["multipleOf"] = o["m"]
            ctx.phase("op%d" % i)
            try:
                conf, lp, p = ss[j].sample(**kw)
            except (RuntimeError, KeyboardInterrupt) as e:
                if "imulated" not in str(e):
                    raise
                ctx.phase("retry")
                conf, lp, p = ss[j].sample(**kw)
            ctx.phase(None)
            last[j] = int(ss[j].get_last_number_of_samples())
            for q, v in last.items():
                expect(int(ss[q].get_last_number_of_samples()) == v, "accounting",
                       "rank %d: reported number of samples of sampler %d changed without sampling" % (ctx.rank, q))
            out.append((np.array(conf), np.array(lp), np.array(p), last[j]))
        return out
    outs = run_world(w, program, sm)
    defaults = [c["n"] for c in scn["samplers"]]
    R, D = scn["size"], scn["ndev"]
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "default":
            defaults[o["which"] % len(defaults)] = o["n"]
        elif o["op"] == "split":
            ns = [x[i][0] for x in outs]
            expect(sum(ns) == o["n"] and all(x[i][1] == o["n"] for x in outs), "split", "step %d: %d split into %s (total %s)" % (i, o["n"], ns, [x[i][1] for x in outs]))
            expect(max(ns) - min(ns) <= 1, "split", "step %d: %d split unevenly into %s" % (i, o["n"], ns))
            first = [x[i][2] for x in outs]
            expect(first == [sum(ns[:k]) for k in range(R)], "split", "step %d: shares %s start at %s" % (i, ns, first))
        elif o["op"] == "splitdev":
            tot = sum(x[i][0] for x in outs) * D * o["c"]
            expect(all(x[i][1] == tot for x in outs), "split", "step %d: %s samples per chain on %d devices x %d chains reported as %s" % (
                i, [x[i][0] for x in outs], D, o["c"], [x[i][1] for x in outs]))
            expect(o["n"] <= tot < o["n"] + R * D * o["c"], "split", "step %d: %d requested, %d scheduled" % (i, o["n"], tot))
        else:
            j = o["which"] % len(defaults)
            c = scn["samplers"][j]
            req = defaults[j] if o["n"] is None else o["n"]
            where = "step %d: %d samples requested in multiples of %d from sampler %d" % (i, req, o["m"], j)
            cnt = [x[i][0].shape[0] * x[i][0].shape[1] for x in outs]
            for r, x in enumerate(outs):
                expect(x[i][0].shape == (D, cnt[r] // D, L) and x[i][1].shape == x[i][2].shape == (D, cnt[r] // D), "wrong-shape",
                       "%s: rank %d shapes %s" % (where, r, [q.shape for q in x[i][:3]]))
                expect((cnt[r] // D) % o["m"] == 0, "multiple", "%s: %d per device on rank %d" % (where, cnt[r] // D, r))
            rep = [x[i][3] for x in outs]
            expect(all(v == sum(cnt) for v in rep), "accounting", "%s: %d returned, %s reported" % (where, sum(cnt), rep))
            gen = c["ansatz"] in ("gtable", "flat")
            mult = o["m"] if gen else o["m"] * c["chains"] // math.gcd(o["m"], c["chains"])
            expect(req <= sum(cnt) < req + R * D * mult, "accounting", "%s: %d returned" % (where, sum(cnt)))
            p = np.concatenate([x[i][2].ravel() for x in outs])
            close(p.sum(), 1.0, "%s: sum of the weights" % where, rtol=1e-10)
            expect(np.all(p > 0), "weights", "%s: weights not positive" % where)
            if gen or c["mu"] == 2:
                close(p, np.full(len(p), 1.0 / len(p)), "%s: equal weights" % where, rtol=1e-10)
            sm.note(cnt)
    sm.d["nontrivial"] = R * D > 1


def valid(scn):
    return len(scn["ops"]) > 0
