"""C12 failed, interrupted or killed writes never damage earlier records."""
import numpy as np

from sim.lib import *
from sim import outp
from sim.disk import Disk

TIERS = {"quick": (320, 240), "thorough": (30000, 1200)}
RULE = ("a file with completed records, then jobs whose writes are ended at a drawn storage operation (open, group / data set creation, "
        "resize, write, close) by a full disk, an I/O error, an interrupt or the end of the process, by data that does not fit, or by a crash after a drawn prefix of the "
        "low-level writes of a call; later writes follow in the same process or in a new one; non-trivial: a fault fired while a file with "
        "earlier records was being written")
ORACLE = ("record model: all completed records unchanged after every fault, the ended record absent or complete, later records complete and "
          "aligned; read with the real HDF5 library from the surviving bytes")
REAL = ["jVMC.util.OutputManager (one instance per rank)", "HDF5 library"]
STUB = ["mpi4py", "disk (byte journal under HDF5's file driver; low-level writes are atomic and ordered)", "clock", "thread scheduling"]
ASSUMPTIONS = ["low-level writes reach the disk in the order HDF5 issues them (process crash, not power loss)",
               "kill: the data sets exist already and no new chunk is allocated by the ended record"]
KINDS = ["observables", "metadata", "network_checkpoints"]


def generate(rng, idx, tier):
    jobs = []
    first = gen_base(rng, idx, sizes=(1, 2, 3), ndevs=(1,))
    groups = rng.sample(outp.GROUPS, rng.choice([1, 2]))
    first.update(g=groups[0], append=False, ops=[])
    for g in groups:
        first["ops"].append({"kind": "group", "g": g})
        for k in KINDS:
            for _ in range(rng.choice([1, 1, 2])):
                first["ops"].append(outp.gen_record(rng, k, full=True))
    virgin = rng.random() < 0.25
    if virgin:          # faults hit a file without data sets (errors and interrupts only)
        first["ops"] = first["ops"][:1]
    jobs.append(first)
    for j in range(rng.choice([1, 1, 2, 3])):
        b = gen_base(rng, idx + j, sizes=(1, 2, 3), ndevs=(1,))
        b["append"] = True
        b["g"] = rng.choice(groups)
        b["ops"] = []
        for _ in range(rng.randrange(2, 6)):
            if rng.random() < 0.15:
                b["ops"].append({"kind": "group", "g": rng.choice(groups)})
            b["ops"].append(outp.gen_record(rng, rng.choice(KINDS), full=rng.random() < 0.5))
        wr = [i for i, o in enumerate(b["ops"]) if o["kind"] in KINDS]
        what = rng.choice(["enospc", "eio", "interrupt", "interrupt", "kill", "cut"])
        if virgin and what in ("kill", "cut"):
            what = "interrupt"
        n = 1 if what in ("kill", "cut") else rng.choice([1, 1, 2, 3])
        for i in rng.sample(wr, min(n, len(wr))):
            o = b["ops"][i]
            # open, 3 operations per name (fewer if the data set exists), resize + write of the time, close
            top = 5 + (2 if not virgin else 4) * (len(o["keys"]) if "keys" in o else 1)
            if what == "cut":
                b["cut"] = [i, rng.random()]
                b["ops"] = b["ops"][:i + 1]
                break
            b["faults"].append({"seam": "disk", "phase": "op%d" % i, "k": rng.randrange(top), "what": what if rng.random() < 0.7 or what == "kill" else "eio"})
        if not virgin and rng.random() < 0.3:
            # data that does not fit (another number of parameters, complex)
            c = [i for i in wr if i < len(b["ops"]) and not any(f["phase"] == "op%d" % i for f in b["faults"]) and b.get("cut", [None])[0] != i]
            if c:
                b["ops"][rng.choice(c)]["bad"] = [rng.randrange(20), rng.choice(["short", "short", "long", "one", "rank", "cpx"])]
        jobs.append(b)
    last = gen_base(rng, idx, sizes=(1, 2, 3), ndevs=(1,))
    last.update(append=True, g=rng.choice(groups), ops=[outp.gen_record(rng, k, full=rng.random() < 0.5) for k in KINDS])
    jobs.append(last)
    return {"jobs": jobs, "size": first["size"], "ndev": 1, "seed": first["seed"]}


@guarded
def execute(scn, scratch, sm):
    disk = Disk(scratch)
    fn = "out.hdf5"
    model = outp.Model()
    hit = False
    for j, job in enumerate(scn["jobs"]):
        cut = job.get("cut")
        w = make_world(job, disk=disk)
        state = {"model": model, "partial": None, "len": []}

        def program(ctx, job=job, w=w, j=j):
            out = ctx.jVMC.util.OutputManager(fn, append=job["append"], group=job["g"])
            g = job["g"]
            for i, o in enumerate(job["ops"]):
                if o["kind"] == "group":
                    out.set_group(o["g"])
                    g = o["g"]
                    continue
                rec = (g, o["kind"], (float(o["t"]), outp.record(o)))
                if ctx.rank == 0:
                    state["partial"] = rec
                    state["len"] = [len(disk.files[disk.path(fn)].journal)]
                ctx.phase("op%d" % i)
                ok = True
                try:
                    outp.write(out, o)
                except (OSError, KeyboardInterrupt, ValueError, TypeError, RuntimeError) as e:
                    if "imulated" not in str(e) and "bad" not in o:
                        raise
                    ok = False
                ctx.phase(None)
                if "bad" in o and ctx.rank == 0:
                    sm.fault("misfit_data")
                    what = "job %d, call %d (data that does not fit: %s)" % (j, i, o["bad"][1])
                    expect(not ok, "misfit-accepted", "%s: written without an error" % what)
                    outp.check_all(disk, fn, state["model"], what)
                    state["partial"] = None
                    continue
                if ctx.rank == 0:
                    state["len"].append(len(disk.files[disk.path(fn)].journal))
                    where = "job %d, call %d%s" % (j, i, "" if ok else " (failed)")
                    if cut and cut[0] == i:
                        return
                    if ok:
                        state["model"].add(*rec[:2], *rec[2])
                        if job["faults"]:
                            outp.check_all(disk, fn, state["model"], where)
                    else:
                        took = outp.check_all(disk, fn, state["model"], where, rec)
                        sm.probe("ended_record_complete" if took else "ended_record_absent")
                        if took:
                            state["model"].add(*rec[:2], *rec[2])
                    state["partial"] = None
        killed = any(f["what"] == "kill" for f in job["faults"])
        outs = run_world(w, program, sm, clean=not killed)
        if killed:
            for r, oc in enumerate(outs):
                if oc[0] == "exc":
                    raise Violation("exception", "job %d: rank %d raised %r" % (j, r, oc[1]))
        model = state["model"]
        hit = hit or any(f.get("_hit") for f in w.faults)
        if cut and state["partial"] is not None:
            a, b = state["len"]
            n = a + int(cut[1] * (b - a + 1))
            image = disk.crash_image({disk.path(fn): n})
            sm.fault("crash_in_flush" if n > a else "crash_before_flush")
            hit = True
        else:
            image = disk.crash_image()
        # what the next process finds
        part = state["partial"] if (killed or cut) else None
        took = outp.check_all(image, fn, model, "after job %d%s" % (j, " (crash)" if part else ""), part)
        if part:
            sm.probe("ended_record_complete" if took else "ended_record_absent")
        if took:
            model.add(*part[:2], *part[2])
        disk = image
        sm.fault("restart")
    sm.d["nontrivial"] = hit


def valid(scn):
    jobs = scn["jobs"]
    if len(jobs) < 2 or jobs[0].get("cut") or jobs[0]["append"] is not False or jobs[0]["faults"]:
        return False
    if any(j.get("cut") or any(f["what"] == "kill" for f in j["faults"]) for j in jobs):
        # the data sets must exist: a complete record of every kind in every group, written by the first job
        need = {j["g"] for j in jobs[1:]} | {o["g"] for j in jobs for o in j["ops"] if o["kind"] == "group"}
        have, g = set(), jobs[0]["g"]
        nfull = {"observables": sum(len(v) for v in outp.NAMES.values()), "metadata": len(outp.META)}
        for o in jobs[0]["ops"]:
            if o["kind"] == "group":
                g = o["g"]
            elif len(o.get("keys", [])) == nfull.get(o["kind"], 0):
                have.add((g, o["kind"]))
        if any((g, k) not in have for g in need for k in KINDS):
            return False
    return True
