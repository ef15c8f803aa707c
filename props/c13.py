"""C13 restoring a checkpoint gives all processes the state that was saved."""
import numpy as np

from sim.lib import *
from sim import outp, ref
from sim.disk import Disk

TIERS = {"quick": (120, 240), "thorough": (12000, 1200)}
RULE = ("histories of checkpoint writes (in several groups, some ended by storage errors, interrupts or the end of the process) and reads "
        "(latest, by time, by position) over 1-4 jobs with different numbers of ranks; every 10th run: a time evolution with exact sampling "
        "that is killed at a drawn collective, device or storage operation and resumed from its latest checkpoint with another number of "
        "ranks; non-trivial: more than one rank reads, or a resumed evolution")
ORACLE = "bit-equality with the saved vector and its time on every rank; the resumed evolution against an uninterrupted simulated job"
REAL = ["jVMC (all of it, one instance per rank)", "HDF5 library", "jax / XLA"]
STUB = ["mpi4py", "disk (byte journal under HDF5's file driver)", "clock", "thread scheduling"]
ASSUMPTIONS = ["the first checkpoint was completed before a job is killed (C12)"]


def generate(rng, idx, tier):
    if idx % 10 == 9:
        return gen_evolve(rng, idx, tier)
    jobs = []
    npar = rng.choice([1, 6, 40, 40, 3000])
    groups = rng.sample(outp.GROUPS, 2)
    nrec = 0
    for j in range(rng.choice([1, 2, 3])):
        b = gen_base(rng, idx + j, sizes=(1, 2, 3, 4), ndevs=(1,))
        b["append"] = j > 0
        b["g"] = groups[0]
        b["ops"] = []
        if j == 0:
            for _ in range(rng.choice([1, 2])):
                b["ops"].append(outp.gen_record(rng, "network_checkpoints", npar=npar))
        for _ in range(rng.randrange(2, 7)):
            k = rng.random()
            if k < 0.35:
                b["ops"].append(outp.gen_record(rng, "network_checkpoints", npar=npar))
            elif k < 0.42:
                b["ops"].append({"kind": "group", "g": rng.choice(groups)})
            else:
                b["ops"].append({"kind": "read", "how": rng.choice(["last", "time", "time", "idx", "neg"]), "t": rng.choice([0.0, rng.random() * 14, rng.randrange(120) / 8.0]),
                                 "i": rng.randrange(8)})
        b["ops"].append({"kind": "read", "how": "last", "t": 0, "i": 0})
        wr = [i for i, o in enumerate(b["ops"]) if o["kind"] == "network_checkpoints" and i > 0]
        if wr and rng.random() < 0.5:
            what = rng.choice(["enospc", "interrupt", "kill"] if j else ["eio", "interrupt"])
            if what == "kill":      # the data set of the group must exist
                b["ops"] = [o if o["kind"] != "group" else {"kind": "read", "how": "last", "t": 0, "i": 0} for o in b["ops"]]
            b["faults"].append({"seam": "disk", "phase": "op%d" % rng.choice(wr), "k": rng.randrange(7), "what": what})
        jobs.append(b)
    return {"mode": "history", "jobs": jobs, "size": jobs[0]["size"], "ndev": 1, "seed": jobs[0]["seed"]}


def gen_evolve(rng, idx, tier):
    b = gen_base(rng, idx, sizes=(1, 2, 3), ndevs=(1, 2))
    b["mode"] = "evolve"
    b["ansatz"] = rng.choice(["table", "two"])
    b["stepper"] = rng.choice(["Euler", "Heun"])
    b["n"] = rng.choice([3, 4])
    kill = rng.randrange(1, b["n"])
    seam = rng.choice(["collective", "device", "disk"])
    b["faults"] = [{"seam": seam, "phase": "step%d" % kill, "k": rng.randrange(1, 6 if seam == "disk" else 12), "what": "kill"}]
    r = gen_base(rng, idx, sizes=(1, 2, 3), ndevs=(1, 2))
    b["resume"] = r
    return b


def run_history(scn, scratch, sm):
    disk = Disk(scratch)
    fn = "out.hdf5"
    model = outp.Model()
    multi = False
    for j, job in enumerate(scn["jobs"]):
        w = make_world(job, disk=disk)
        st = {"part": None, "model": model}

        def program(ctx, job=job, j=j):
            out = ctx.jVMC.util.OutputManager(fn, append=job["append"], group=job["g"])
            g = job["g"]
            reads = []
            for i, o in enumerate(job["ops"]):
                if o["kind"] == "group":
                    out.set_group(o["g"])
                    g = o["g"]
                elif o["kind"] == "read":
                    ctx.comm.Barrier()
                    recs = list(st["model"].series.get((g, "network_checkpoints"), []))
                    ctx.comm.Barrier()
                    if not recs:
                        continue
                    kw, want = {}, len(recs) - 1
                    if o["how"] == "time":
                        d = np.abs(np.array([r[0] for r in recs]) - o["t"])
                        ok = np.where(d == d.min())[0]
                        if len(ok) > 1 and len({recs[q][0] for q in ok}) > 1:
                            continue        # two equally close times: either may be returned
                        want = None
                        kw = {"time": o["t"]}
                    elif o["how"] in ("idx", "neg"):
                        q = o["i"] % len(recs)
                        want = q
                        kw = {"idx": q if o["how"] == "idx" else q - len(recs)}
                    t, p = out.get_network_checkpoint(**kw)
                    where = "rank %d: job %d call %d, reading %s with %d checkpoints" % (ctx.rank, j, i, kw, len(recs))
                    p = np.asarray(p)
                    cands = [recs[q] for q in ok] if want is None else [recs[want]]
                    expect(any(float(t) == c[0] and p.shape == c[1]["checkpoints"].shape and p.tobytes() == c[1]["checkpoints"].tobytes() for c in cands),
                           "wrong-checkpoint", "%s: got time %r, %s..., expected time %r, %s..." % (where, t, p.ravel()[:3], cands[0][0], cands[0][1]["checkpoints"][:3]))
                    reads.append((float(t), np.array(p)))
                else:
                    rec = (g, o["kind"], (float(o["t"]), outp.record(o)))
                    if ctx.rank == 0:
                        st["part"] = rec
                    ctx.phase("op%d" % i)
                    ok = True
                    try:
                        outp.write(out, o)
                    except (OSError, KeyboardInterrupt) as e:
                        if "imulated" not in str(e):
                            raise
                        ok = False
                    ctx.phase(None)
                    if ctx.rank == 0:
                        if ok or outp.check_all(disk, fn, st["model"], "job %d call %d (failed)" % (j, i), rec):
                            st["model"].add(*rec[:2], *rec[2])
                        st["part"] = None
            return reads
        killed = any(f["what"] == "kill" for f in job["faults"])
        outs = run_world(w, program, sm, clean=not killed)
        if killed and outs[0][0] == "killed":
            disk = disk.crash_image()
            if outp.check_all(disk, fn, model, "after the crash of job %d" % j, st["part"]) and st["part"]:
                model.add(*st["part"][:2], *st["part"][2])
        else:
            if killed:
                outs = w.check_clean()
            for n in range(len(outs[0])):
                same_bits([o[n][1] for o in outs], "job %d: restored parameters" % j)
                same_bits([o[n][0] for o in outs], "job %d: restored time" % j)
                sm.note(outs[0][n][1])
                multi = multi or job["size"] > 1
            disk = disk.crash_image()
        sm.fault("restart")
    sm.d["nontrivial"] = multi


def run_evolve(scn, scratch, sm):
    L = 3
    terms = [{"ops": [["Sz", i], ["Sz", (i + 1) % L]], "pref": [["c", [-1.0, 0.0]]]} for i in range(L)] + \
            [{"ops": [["Sx", i]], "pref": [["t", -0.6, 1.1, -0.3]]} for i in range(L)]
    fn = "out.hdf5"

    def job(cfg, disk, resume, faults):
        w = make_world(dict(cfg, faults=faults), disk=disk)
        done = []

        def program(ctx):
            import jax.numpy as jnp
            J = ctx.jVMC
            psi = ref.make_psi(ctx, scn["ansatz"], (L,), seed=5)
            H = ref.build(ctx, terms, L)
            sampler = J.sampler.ExactSampler(psi, (L,))
            tdvp = J.util.TDVP(sampler, pinvTol=1e-3, pinvCutoff=1e-3, makeReal="imag", rhsPrefactor=1.j)
            stepper = getattr(J.util.stepper, scn["stepper"])(timeStep=2e-2)
            out = J.util.OutputManager(fn, append=resume)
            if resume:
                t, p = out.get_network_checkpoint()
                psi.set_parameters(jnp.array(p))
                n0 = int(round(t / 2e-2))
                if ctx.rank == 0:
                    done.append((n0, np.array(p)))
            else:
                psi.set_parameters(jnp.array(0.3 * rs(scn["seed"]).randn(len(psi.get_parameters()))))
                n0 = 0
                out.write_network_checkpoint(0.0, psi.get_parameters())
                if ctx.rank == 0:
                    done.append((0, np.array(psi.get_parameters())))
            for n in range(n0, scn["n"]):
                ctx.phase("step%d" % n)
                p, dt = stepper.step(n * 2e-2, tdvp, psi.get_parameters(), psi=psi, hamiltonian=H)
                psi.set_parameters(p)
                if ctx.rank == 0:
                    done.append((n + 1, np.array(p)))
                out.write_network_checkpoint((n + 1) * 2e-2, psi.get_parameters())
            ctx.phase(None)
            return np.array(psi.get_parameters())
        outs = run_world(w, program, sm, clean=not faults)
        if not faults:
            same_bits(outs, "final parameters")
            return outs[0], done
        return (outs[0][1] if outs[0][0] == "ok" else None), done
    import os
    os.makedirs(os.path.join(scratch, "a"), exist_ok=True)
    os.makedirs(os.path.join(scratch, "b"), exist_ok=True)
    want, _ = job(scn, Disk(os.path.join(scratch, "a")), False, [])
    d = Disk(os.path.join(scratch, "b"))
    got, done = job(scn, d, False, scn["faults"])
    if got is None:
        d = d.crash_image()
        got, again = job(scn["resume"], d, True, [])
        n0, p0 = again[0]
        saved = {n: p for n, p in done}
        expect(n0 in saved and saved[n0].tobytes() == p0.tobytes(), "wrong-checkpoint", "the resumed job starts from step %d with other parameters than were saved" % n0)
        expect(n0 >= max(saved) - 1, "lost-checkpoint", "step %d was completed, the job resumes from step %d" % (max(saved), n0))
        sm.probe("resumed")
        sm.fault("restart")
    else:
        sm.probe("fault_not_reached")
    close(got, want, "final parameters of the resumed evolution", rtol=1e-6, atol=1e-7)
    sm.note(got)
    sm.d["nontrivial"] = True


@guarded
def execute(scn, scratch, sm):
    if scn["mode"] == "evolve":
        run_evolve(scn, scratch, sm)
    else:
        run_history(scn, scratch, sm)


def valid(scn):
    if scn["mode"] == "evolve":
        return True
    j = scn["jobs"][0]
    return len(scn["jobs"]) > 0 and j["append"] is False and j["ops"] and j["ops"][0]["kind"] == "network_checkpoints" and \
        all(x["g"] == j["g"] for x in scn["jobs"]) and not any(o["kind"] == "group" for x in scn["jobs"] for o in x["ops"]
                                                              if any(f["what"] == "kill" for f in x["faults"])) and \
        not any(f["what"] == "kill" or f["phase"] == "op0" for f in j["faults"])
