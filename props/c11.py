"""C11 recorded data: everything written can be read back, ordered and aligned."""
import numpy as np

from sim.lib import *
from sim import outp
from sim.disk import Disk

TIERS = {"quick": (280, 240), "thorough": (30000, 1200)}
RULE = ("histories of 6-20 output calls (observables, metadata, checkpoints, data sets, error data, with drawn subsets of names, group "
        "changes, several managers used in turn, series of up to 140 records) spread over 1-4 jobs with 1-4 ranks each; jobs end between any two calls and the next one opens the "
        "file for appending or anew; non-trivial: at least two records of one kind")
ORACLE = "list-of-records model per group and kind; the file is read with the real HDF5 library after every job and at drawn points"
REAL = ["jVMC.util.OutputManager (one instance per rank)", "HDF5 library"]
STUB = ["mpi4py", "disk (byte journal under HDF5's file driver)", "clock", "thread scheduling"]
KINDS = ["observables", "metadata", "network_checkpoints"]


def gen_ops(rng, n):
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.68:
            ops.append(outp.gen_record(rng, rng.choice(KINDS)))
        elif k < 0.8:
            ops.append({"kind": "group", "g": rng.choice(outp.GROUPS)})
        elif k < 0.86:
            ops.append({"kind": "set", "s": rng.randrange(1 << 30), "g": rng.choice(["/", "extra", "extra/deep", "observables", "run"]), "rank": rng.randrange(4),
                        "shape": rng.choice([[3], [2, 2], [1], [], [0, 2]]), "dt": rng.choice(["f8", "c16", "i8"])})
        elif k < 0.9:
            ops.append({"kind": "err", "s": rng.randrange(1 << 30), "rank": rng.randrange(4), "shape": rng.choice([[3], [2, 2], []])})
        elif k < 0.93:
            ops.append({"kind": "reopen", "append": rng.random() < 0.8, "g": rng.choice(outp.GROUPS)})
        elif k < 0.96:
            ops.append({"kind": "switch", "m": rng.randrange(4)})
        elif k < 0.97:
            ops.append({"kind": "print"})
        else:
            ops.append({"kind": "read"})
    return ops


def generate(rng, idx, tier):
    jobs = []
    for j in range(rng.choice([1, 1, 2, 3, 4])):
        b = gen_base(rng, idx + j, sizes=(1, 2, 3, 4), ndevs=(1,))
        b["append"] = False if j == 0 and rng.random() < 0.7 else rng.random() < 0.85
        b["g"] = rng.choice(outp.GROUPS + ["/", "/"])
        b["ops"] = gen_ops(rng, rng.randrange(3, 9))
        if idx % 14 == 9 and j == 0:        # a long series
            kind = rng.choice(KINDS)
            b["ops"] += [outp.gen_record(rng, kind) for _ in range(rng.choice([30, 70, 140]))]
        b["conv"] = rng.choice(["np", "np", "jnp"])
        jobs.append(b)
    return {"jobs": jobs, "size": jobs[0]["size"], "ndev": 1, "seed": jobs[0]["seed"]}


@guarded
def execute(scn, scratch, sm):
    disk = Disk(scratch)
    fn = "out.hdf5"
    model = outp.Model()
    nset = [0]
    for j, job in enumerate(scn["jobs"]):
        w = make_world(job, disk=disk)
        if not job["append"] or disk.path(fn) not in disk.files:
            model = outp.Model()
        # plan: resolve the group of every record
        g = job["g"]
        mgr, at = [g], 0          # groups of the managers in use
        plan = []
        marks = []
        for o in job["ops"]:
            k = o["kind"]
            if k in KINDS:
                model.add(g, k, o["t"], outp.record(o))
            elif k == "group":
                g = mgr[at] = o["g"]
            elif k == "reopen":
                g = o["g"]
                if not o["append"]:
                    model = outp.Model()
                    mgr = []
                mgr.append(g)
                at = len(mgr) - 1
            elif k == "switch":
                at = o["m"] % len(mgr)
                g = mgr[at]
            elif k in ("set", "err"):
                nset[0] += 1
                name = "d%d" % nset[0]
                v = outp.val(o["s"], o["shape"])
                if o.get("dt") == "c16":
                    v = v + 1j
                if o.get("dt") == "i8":
                    v = (v * 0 + o["s"] % 100).astype("i8")
                base = "/error_data" if k == "err" else ("" if o["g"] == "/" else "/" + o["g"])
                model.sets[base + "/" + name] = v
                o = dict(o, name=name, v=v)
            plan.append(o)
            marks.append(model.copy())

        def program(ctx, job=job, plan=plan, marks=marks, w=w):
            import jax.numpy as jnp
            O = ctx.jVMC.util.OutputManager
            conv = (lambda x: x) if job["conv"] == "np" else jnp.array
            kw = {} if job["g"] == "/" and job["seed"] % 2 else {"group": job["g"]}
            out = O(fn, append=job["append"], **kw)
            mgr = [out]
            for i, o in enumerate(plan):
                k = o["kind"]
                if k in KINDS:
                    outp.write(out, o, conv)
                elif k == "group":
                    out.set_group(o["g"])
                elif k == "reopen":
                    out = O(fn, append=o["append"], group=o["g"])
                    mgr = mgr + [out] if o["append"] else [out]
                elif k == "switch":
                    out = mgr[o["m"] % len(mgr)]
                elif k == "print":
                    out.print("step %d" % i)
                elif k in ("set", "err"):
                    # another process may write: callers separate that by barriers
                    ctx.comm.Barrier()
                    f = out.write_dataset if k == "set" else out.write_error_data
                    kw = {"groupname": o["g"]} if k == "set" else {}
                    v = o["v"] if ctx.rank == o["rank"] % ctx.size else o["v"] + 1 + ctx.rank      # what the others pass in is not asked for
                    f(o["name"], conv(v) if o.get("dt") != "i8" else v, mpiRank=o["rank"] % ctx.size, **kw)
                    ctx.comm.Barrier()
                elif k == "read":
                    ctx.comm.Barrier()
                    if ctx.rank == 0:
                        outp.check_all(disk, fn, marks[i], "job %d, after call %d" % (j, i))
                    ctx.comm.Barrier()
        run_world(w, program, sm)
        bad = [r for r, s in w.printed if r != 0 and s.strip() and not s.strip().startswith("(")]
        expect(not bad, "print", "job %d: rank %s printed" % (j, bad[:1]))
        expect(sum(1 for r, s in w.printed if s.startswith("step")) == sum(1 for o in plan if o["kind"] == "print"), "print",
               "job %d: printed lines %s" % (j, w.printed[:10]))
        writers = {r for r, o, p in disk.ops}
        allowed = {0} | {o["rank"] % job["size"] for o in plan if o["kind"] in ("set", "err")}
        expect(writers <= allowed, "foreign-access", "job %d: ranks %s touched the file" % (j, sorted(writers)))
        outp.check_all(disk, fn, model, "after job %d" % j)
        sm.probe("records", sum(len(v) for v in model.series.values()))
        disk = disk.crash_image()
        sm.fault("restart")
    sm.d["nontrivial"] = any(len(v) > 1 for v in model.series.values())


def valid(scn):
    return len(scn["jobs"]) > 0
