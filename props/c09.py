"""C09 processes of a job stay in lock step and hold identical state."""
import numpy as np

from sim.lib import *
from sim import ref
from sim.disk import Disk

TIERS = {"quick": (40, 240), "thorough": (5000, 1500)}
RULE = ("complete driver programs on R ranks x D devices: ground state search (TDVP or MinSR, observables, output file), unitary evolution "
        "(Euler / Heun / AdaptiveHeun, real and imaginary time, measuring, meta data, checkpoints written and read back, datasets written by "
        "chosen ranks), Lindblad evolution with POVMs; exact, Markov-chain and direct sampling with sample numbers that do not divide, "
        "batched local energies, few or more than 50 prefactors; each program runs under two independent schedules with different stalls, "
        "latencies and clock skews; non-trivial: more than one rank")
ORACLE = ("every rank finishes, the collectives of all ranks match call by call, parameters / step sizes / energies / variances / measured values "
          "are bitwise equal across ranks and across the two schedules; only the rank in charge prints or performs storage operations")
REAL = ["jVMC (all of it, one instance per rank)", "HDF5 library", "jax / XLA"]
STUB = ["mpi4py", "disk (byte journal under HDF5's file driver)", "clock", "thread scheduling"]
L = 3


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({"sizes": (2, 3, 4, 1)} if th else {"sizes": (2, 3, 4), "ndevs": (1, 2)}))
    scn["mode"] = ["gss", "evolve", "gss", "evolve", "lindblad"][idx % 5]
    scn["sampler"] = rng.choice(["exact", "mc", "mc", "gen"])
    if scn["mode"] == "lindblad":
        scn["ansatz"] = "gtable1" if scn["sampler"] == "gen" else "rtable"
    else:
        scn["ansatz"] = "gtable" if scn["sampler"] == "gen" else rng.choice(["table", "cpxrbm", "two"])
    scn["ham"] = rng.randrange(1 << 30) if th else rng.randrange(3)
    scn["many"] = rng.random() < 0.35
    scn["ebatch"] = rng.choice([-1, 1, 2, 3, 4])
    scn["n"] = rng.choice([5, 7, 10, 13])
    scn["chains"] = rng.choice([1, 2, 3])
    if idx % 5 in (1, 2) and idx % 2:
        # communicating prefactors, and batches of the local energy that do not come out even on some ranks only
        scn["many"], scn["sampler"], scn["chains"] = True, "mc", 1
        if scn["ansatz"] == "gtable":
            scn["ansatz"] = "table"
        scn["ebatch"] = rng.choice([3, 4])
        scn["n"] = scn["size"] * scn["ndev"] * 5 + rng.choice([1, scn["ndev"], scn["ndev"] + 1])
    scn["steps"] = rng.choice([1, 2, 3])
    scn["eq"] = "minsr" if scn["mode"] == "gss" and rng.random() < 0.4 else "tdvp"
    if scn["eq"] == "minsr":       # its update is complex: for holomorphic networks
        scn["ansatz"] = "cpxrbm"
        scn["sampler"] = rng.choice(["exact", "mc"])
    scn["cross"] = rng.random() < 0.2
    scn["shift"] = rng.choice([0.0, 10.0])
    scn["outp"] = rng.random() < 0.7
    scn["obs"] = rng.random() < 0.8
    scn["stepper"] = rng.choice(["Euler", "Heun", "AdaptiveHeun", "AdaptiveHeun"])
    scn["snorm"] = rng.random() < 0.4
    scn["imag"] = rng.random() < 0.3
    scn["vtol"] = rng.choice([1e-10, 1e-10, 0.99])
    scn["writer"] = rng.randrange(scn["size"])
    s2 = gen_base(rng, idx)
    scn["alt"] = {"sched": gen_sched(rng, scn["size"]), "net": s2["net"], "seed": s2["seed"]}
    return scn


def job(scn, disk, sm):
    w = make_world(scn, disk=disk)
    terms = ref.gen_terms(rs(scn["ham"]), L, 55 if scn["many"] else 5, tdep=scn["mode"] == "evolve", maxlen=2,
                          plain=0.0 if scn["many"] else 0.4, scale=0.2 if scn["many"] else 1.0)
    obsterms = ref.gen_terms(rs(scn["ham"] + 50), L, 2, tdep=False)

    def program(ctx):
        import jax
        import jax.numpy as jnp
        from importlib import import_module
        J = ctx.jVMC
        lind = scn["mode"] == "lindblad"
        lDim, shape = (4, (2,)) if lind else (2, (L,))
        lpf = 1.0 if lind else 0.5
        psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=3, lDim=lDim, batchSize=3)
        psi.set_parameters(jnp.array(rs(scn["seed"]).randn(psi.get_parameters().size) * 0.3))
        if scn["sampler"] == "exact":
            sampler = J.sampler.ExactSampler(psi, shape, lDim=lDim, logProbFactor=lpf)
        else:
            sampler = J.sampler.MCSampler(psi, shape, 11, updateProposer=J.sampler.propose_POVM_outcome if lind else J.sampler.propose_spin_flip,
                                          numChains=scn["chains"], numSamples=scn["n"], thermalizationSweeps=2, sweepSteps=L, logProbFactor=lpf)
        outp = J.util.OutputManager("out.hdf5", group="run") if scn["outp"] else None
        log = []

        def note(name, *vals):
            for v in vals:
                for leaf in jax.tree_util.tree_leaves(v):
                    log.append((name, np.array(leaf)))
        if lind:
            P = import_module("jVMC.operator.povm")
            povm = P.POVM({"dim": "1D", "L": 2})
            H = P.POVMOperator(povm, ElocBatchSize=scn["ebatch"])
            for d in ({"name": "XX", "strength": 0.7, "sites": (0, 1)}, {"name": "Z", "strength": 0.4, "sites": (0,)},
                      {"name": "dephasing", "strength": 0.3, "sites": (1,)}, {"name": "decayup", "strength": 0.2, "sites": (0,)}):
                H.add(d)
            eq = J.util.TDVP(sampler, snrTol=1, pinvTol=1e-3, pinvCutoff=1e-3, makeReal="real", rhsPrefactor=-1.0, crossValidation=scn["cross"])
        else:
            H = ref.build(ctx, terms, L, batch=scn["ebatch"])
            if scn["eq"] == "minsr":
                eq = J.util.MinSR(sampler, pinvTol=1e-4)
            else:
                gs = scn["mode"] == "gss" or scn["imag"]
                eq = J.util.TDVP(sampler, snrTol=1, pinvTol=1e-3, pinvCutoff=1e-3, makeReal="real" if gs else "imag", rhsPrefactor=1.0 if gs else 1.j,
                                 diagonalShift=scn["shift"] if gs else 0.0, crossValidation=scn["cross"])
            obs = {"a": ref.build(ctx, obsterms, L), "h": [(H, 0.2), ref.build(ctx, obsterms[:1], L, batch=2)]}

        # what the driver asks for in between
        set0 = psi.set_parameters

        def set_parameters(p):
            note("parameters", p)
            return set0(p)
        psi.set_parameters = set_parameters

        if scn["mode"] == "gss":
            J.util.ground_state_search(psi, H, eq, sampler, numSteps=scn["steps"], varianceTol=scn["vtol"], stepSize=1e-2,
                                       observables=obs if scn["obs"] else None, outp=outp)
            note("energy", eq.get_energy_mean(), eq.get_energy_variance())
            if scn["obs"]:
                note("measured", J.util.measure(obs, psi, sampler))
        else:
            st = J.util.stepper
            stepper = st.AdaptiveHeun(timeStep=1e-3, tol=1e-3) if scn["stepper"] == "AdaptiveHeun" else getattr(st, scn["stepper"])(timeStep=1e-2)
            t = 0.0
            for n in range(scn["steps"]):
                kw = {}
                if scn["stepper"] == "AdaptiveHeun" and scn["snorm"]:
                    kw["normFunction"] = lambda v: jnp.real(jnp.sqrt(jnp.abs(jnp.conj(v).dot(eq.S_dot(v)))))
                if outp is not None:
                    outp.start_timing("step")
                    kw["outp"] = outp
                dp, dt = stepper.step(t, eq, psi.get_parameters(), hamiltonian=H, psi=psi, numSamples=None, **kw)
                psi.set_parameters(dp)
                t += dt
                note("dt", dt)
                note("energy", eq.get_energy_mean(), eq.get_energy_variance())
                note("metadata", eq.get_metadata())
                if scn["obs"]:
                    m = P.measure_povm(povm, sampler) if lind else J.util.measure(obs, psi, sampler)
                    note("measured", m)
                if outp is not None:
                    outp.stop_timing("step")
                    if scn["obs"]:
                        outp.write_observables(t, **m)
                    outp.write_metadata(t, tdvp_error=eq.get_residuals()[0], tdvp_residual=eq.get_residuals()[1])
                    outp.write_network_checkpoint(t, psi.get_parameters())
                    tt, pp = outp.get_network_checkpoint()
                    note("checkpoint", tt, pp)
                    outp.print_timings(indent="  ")
                    outp.print("step %d" % n)
            if outp is not None:
                ctx.comm.Barrier()
                outp.write_dataset("extra", np.arange(3.0), groupname="/post", mpiRank=scn["writer"])
                ctx.comm.Barrier()
                outp.write_error_data("err", np.arange(2.0), mpiRank=scn["writer"])
                ctx.comm.Barrier()
        note("final", psi.get_parameters())
        return log
    w.run(program)
    sm.add(w)
    logs = w.check_clean()
    return w, logs


@guarded
def execute(scn, scratch, sm):
    import os
    import shutil
    res = []
    for k in range(2):
        d = os.path.join(scratch, "d%d" % k)
        os.makedirs(d, exist_ok=True)
        disk = Disk(d)
        # the order in which a reduction adds may differ between networks, not between timings
        one = dict(scn, net=dict(scn["net"], shuffle=False))
        if k:
            one = dict(one, sched=scn["alt"]["sched"], net=dict(scn["alt"]["net"], shuffle=False))
        w, logs = job(one, disk, sm)
        names = [[x[0] for x in l] for l in logs]
        for r in range(1, scn["size"]):
            expect(names[r] == names[0], "rank-divergence", "ranks 0 and %d went through different steps: %s vs %s" % (r, names[0][:40], names[r][:40]))
        for i, n in enumerate(names[0]):
            same_bits([l[i][1] for l in logs], "%s (value %d)" % (n, i))
        bad = sorted({r for r, _ in w.printed if r != 0})
        expect(not bad, "printed", "ranks %s printed: %s" % (bad, [x for x in w.printed if x[0] != 0][:2]))
        touched = sorted({r for r, _, _ in disk.ops})
        allowed = {0} | ({scn["writer"]} if scn["mode"] != "gss" else set())
        expect(set(touched) <= allowed, "storage", "ranks %s performed storage operations" % touched)
        if scn["writer"] != 0:
            # before its turn the writing rank leaves the file alone, and it touches nothing but what it was asked for
            pos = [i for i, (r, _, _) in enumerate(disk.ops) if r == scn["writer"]]
            if pos:
                expect(all(r == scn["writer"] for r, _, _ in disk.ops[pos[0]:]), "storage", "rank 0 and rank %d performed storage operations in turns" % scn["writer"])
        if scn["outp"]:
            expect(0 in touched, "storage", "no output written")
            sm.probe("storage_ops", len(disk.ops))
        res.append(logs[0])
        shutil.rmtree(d, ignore_errors=True)
    expect([x[0] for x in res[0]] == [x[0] for x in res[1]], "timing-dependence", "the job went through different steps under another timing")
    for i, (n, v) in enumerate(res[0]):
        same_bits([v, res[1][i][1]], "%s (value %d) under two timings (\"rank\" numbers the timings)" % (n, i), "timing-dependence")
        sm.note(v)
    sm.d["nontrivial"] = scn["size"] > 1
