"""C23 jobs with exact sampling give the serial result for every layout."""
import os

import numpy as np

from sim.lib import *
from sim import ref
from sim.disk import Disk
from props import c07, c19

TIERS = {"quick": (56, 240), "thorough": (4000, 1500)}
RULE = ("complete jobs on R ranks x D devices with exact sampling: ground state search (diagonal shift, variance tolerance, observables, output file) "
        "or time evolution (Euler / Heun / AdaptiveHeun, real or imaginary time, time-dependent Hamiltonian, explicit regularisation) with output and checkpoints, in one or "
        "two sections of different layout, continued from the checkpoint; a communication or device failure in a step, which the driver repeats; stalls, latencies, clock skew; "
        "non-trivial: more than one rank or device")
ORACLE = ("serial reference job in numpy: dense Hamiltonian, amplitudes and gradients of the bare network on the whole basis, defining equations, integrator scheme; "
          "run thrice with inputs perturbed by 1e-12 to tell rounding from error; contents of the output file read back with HDF5")
ASSUMPTIONS = ["trajectories on which rounding decides about a cutoff or an accepted step are not compared beyond that point"]
REAL = ["jVMC (all of it, one instance per rank)", "HDF5 library", "jax / XLA"]
STUB = ["mpi4py", "disk (byte journal under HDF5's file driver)", "clock", "thread scheduling"]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, **({} if tier == "thorough" else {"sizes": (2, 3, 4, 1, 2, 3), "ndevs": (1, 2, 3)}))
    scn["mode"] = "gss" if idx % 3 == 0 else "evolve"
    scn["ansatz"], scn["shape"] = rng.choice([("cpxrbm", [3]), ("two", [3]), ("cpxrbm", [2]), ("table", [3]), ("rbm", [4]), ("cpxrbm", [2, 2])])
    scn["imag"] = scn["mode"] == "gss" or scn["ansatz"] == "rbm" or rng.random() < 0.35
    scn["ham"] = rng.randrange(1 << 30) if tier == "thorough" else rng.randrange(4)
    scn["ebatch"] = rng.choice([-1, -1, 2, 3])
    scn["batch"] = rng.choice([1000, 4, 3])
    scn["cutoff"] = rng.choice([1e-2, 3e-2, 0.1])
    scn["pinvTol"] = rng.choice([1e-6, 1e-2, 0.1])
    scn["shift"] = rng.choice([0.0, 10.0, 0.5]) if scn["imag"] else 0.0
    scn["cv"] = rng.random() < 0.2
    scn["dev"] = rng.random() < 0.6
    scn["step"] = rng.choice([1e-2, 5e-2, 0.1])
    scn["outp"] = rng.random() < 0.7
    scn["obs"] = rng.random() < 0.8
    if scn["mode"] == "gss":
        scn["steps"] = rng.choice([1, 3, 5, 8])
        scn["vtol"] = rng.choice([1e-10, 0.3, 1.5, 5.0])
        scn["parts"] = 1
    else:
        scn["stepper"] = rng.choice(["Euler", "Heun", "adaptive", "adaptive"])
        scn["tol"] = rng.choice([1e-2, 1e-3, 1e-4])
        scn["max"] = rng.choice([1, 0.05])
        scn["steps"] = rng.choice([2, 3, 4])
        scn["parts"] = rng.choice([1, 1, 2])
        scn["relayout"] = [rng.choice([1, 2, 3]), rng.choice([1, 2])]
        if rng.random() < 0.5:
            scn["faults"].append({"seam": "device" if scn["size"] == 1 else "collective", "phase": "step%d" % rng.randrange(scn["steps"]), "k": rng.randrange(40),
                                  "what": None})
            f = scn["faults"][-1]
            f["what"] = rng.choice(["mpierr", "interrupt"] if f["seam"] == "collective" else ["oom", "interrupt"])
    return scn


def theta0(scn, n):
    return rs(scn["seed"]).randn(n) * 0.3


class Serial:
    """The job on one processor."""

    def __init__(self, scn, net, terms, L, pert):
        self.scn, self.net, self.terms, self.L = scn, net, terms, L
        self.pert = pert
        self.r = rs(scn["seed"] + 17 * pert)
        self.opts = {"rhs": [1, 0] if scn["imag"] else [0, 1], "mk": "real" if scn["imag"] else "imag", "pinvTol": scn["pinvTol"],
                     "pinvCutoff": scn["cutoff"], "sampler": "exact", "snrTol": 0}
        self.shift = scn["shift"]
        self.E = self.V = None

    def rhs(self, th, t, k):
        lp = self.net.logpsi(th)
        w = np.exp(2 * (lp.real - lp.real.max()))
        w = w / w.sum()
        E = (ref.dense(self.terms, self.L, t) * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)
        G = self.net.grads(th)
        if self.pert:
            E = E * (1 + 1e-12 * self.r.randn(len(E)))
            G = G * (1 + 1e-12 * self.r.randn(*G.shape)) + 1e-13 * self.r.randn(*G.shape)
        eq = c07.Eq(self.opts, self.shift, len(w))
        out = eq.solve(E, G, w)
        if k == 0:
            self.E, self.V = eq.Em.real, eq.Ev
        return out["update"]

    def measure(self, th, terms, t):
        lp = self.net.logpsi(th)
        w = np.exp(2 * (lp.real - lp.real.max()))
        w = w / w.sum()
        O = (ref.dense(terms, self.L, t) * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)
        m = np.sum(w * O)
        return np.array([m.real, np.sum(w * np.abs(O - m) ** 2)])


def reference(scn, net, terms, obsterms, L, pert):
    s = Serial(scn, net, terms, L, pert)
    th = theta0(scn, net.n)
    out = []
    if scn["mode"] == "gss":
        n, var = 0, np.inf
        out.append({"t": 0.0, "th": th, "obs": s.measure(th, obsterms, None)})
        while n < scn["steps"] and var > scn["vtol"]:
            th = th + scn["step"] * s.rhs(th, 0.0, 0)
            n += 1
            var = s.V
            s.shift *= 0.95
            out.append({"t": float(n), "th": th, "E": s.E, "V": s.V, "obs": s.measure(th, obsterms, None), "margin": abs(var / scn["vtol"] - 1)})
        return out
    t, dt = 0.0, scn["step"]
    o = {"kind": scn["stepper"], "tol": scn["tol"], "max": scn["max"]}
    for n in range(scn["steps"]):
        if n == section(scn):
            dt = scn["step"]        # a restarted job begins with its own step size
        r = c19.ref_step(o, s.rhs, np.linalg.norm, t, th, dt)
        if r is None:
            break
        th, used, dt, margin, _ = r
        t = t + used
        out.append({"t": t, "th": th, "dt": used, "E": s.E, "V": s.V, "obs": s.measure(th, obsterms, None), "margin": margin})
    return out


def section(scn):
    """First step of the second section of the job."""
    return scn["steps"] // 2 if scn["parts"] == 2 else -1


@guarded
def execute(scn, scratch, sm):
    shape = tuple(scn["shape"])
    L = int(np.prod(shape))
    net = ref.refnet(scn["ansatz"], shape)
    terms = ref.gen_terms(rs(scn["ham"]), L, 5, tdep=scn["mode"] == "evolve")
    obsterms = ref.gen_terms(rs(scn["ham"] + 50), L, 3, tdep=False)
    runs = [reference(scn, net, terms, obsterms, L, k) for k in range(3)]
    # up to where the reference is defined whatever the rounding
    good = 0
    for i in range(min(len(r) for r in runs)):
        a = runs[0][i]
        sp = max(np.abs(r[i]["th"] - a["th"]).max() for r in runs[1:])
        if not np.all(np.isfinite(a["th"])) or np.abs(a["th"]).max() > 30 or not sp < 1e-8 or a.get("margin", 1.0) < 1e-6:
            break
        a["spread"] = sp
        good = i + 1
    complete = good == len(runs[0]) and all(len(r) == len(runs[0]) for r in runs)
    want = runs[0]
    d = os.path.join(scratch, "d")
    os.makedirs(d, exist_ok=True)
    disk = Disk(d)
    got = []
    parts = [(scn["size"], scn["ndev"], 0, scn["steps"])]
    if scn["parts"] == 2:
        h = section(scn)
        parts = [(scn["size"], scn["ndev"], 0, h), (scn["relayout"][0], scn["relayout"][1], h, scn["steps"])]
    for pi, (R, D, first, last) in enumerate(parts):
        # a device failure on one rank only would leave the others waiting, as in any MPI program
        fl = [f for f in scn["faults"] if f["seam"] == "collective" or R == 1]
        if R > 2 ** L or (pi and R == 1 and scn["size"] == 1 and D == scn["ndev"]):
            R, fl = 2, [f for f in fl if f["seam"] == "collective"]
        one = dict(scn, size=R, ndev=D, faults=fl)
        w = make_world(one, disk=disk, salt=pi)

        def program(ctx):
            import jax.numpy as jnp
            J = ctx.jVMC
            psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=3, batchSize=scn["batch"])
            H = ref.build(ctx, terms, L, batch=scn["ebatch"])
            obs = {"a": [ref.build(ctx, obsterms, L, batch=2)]} if scn["obs"] else None
            sampler = J.sampler.ExactSampler(psi, shape)
            eq = J.util.tdvp.TDVP(sampler, pinvTol=scn["pinvTol"], pinvCutoff=scn["cutoff"], makeReal="real" if scn["imag"] else "imag",
                                  rhsPrefactor=1.0 if scn["imag"] else 1.j, diagonalShift=scn["shift"], crossValidation=scn["cv"], diagonalizeOnDevice=scn["dev"])
            outp = None
            if scn["outp"] or scn["parts"] == 2:
                outp = J.util.OutputManager("out.hdf5", group="run", append=pi > 0)
            t = 0.0
            if pi == 0 or first == 0:
                psi.set_parameters(jnp.array(theta0(scn, net.n)))
            else:
                t, th = outp.get_network_checkpoint()
                psi.set_parameters(th)
            log = []
            if scn["mode"] == "gss":
                J.util.ground_state_search(psi, H, eq, sampler, numSteps=scn["steps"], varianceTol=scn["vtol"], stepSize=scn["step"], observables=obs, outp=outp)
                return [{"th": np.array(psi.get_parameters()), "E": float(eq.get_energy_mean()), "V": float(eq.get_energy_variance())}]
            st = J.util.stepper
            stepper = st.AdaptiveHeun(timeStep=scn["step"], tol=scn["tol"], maxStep=scn["max"]) if scn["stepper"] == "adaptive" else getattr(st, scn["stepper"])(timeStep=scn["step"])
            for n in range(first, last):
                ctx.phase("step%d" % n)
                for k in range(3):
                    try:
                        dp, dt = stepper.step(t, eq, psi.get_parameters(), hamiltonian=H, psi=psi, numSamples=None)
                        break
                    except (RuntimeError, KeyboardInterrupt) as e:
                        if "imulated" not in str(e) or k == 2:
                            raise
                        ctx.phase("retry")
                ctx.phase(None)
                psi.set_parameters(dp)
                t = t + dt
                rec = {"th": np.array(psi.get_parameters()), "t": float(t), "dt": float(dt), "E": float(eq.get_energy_mean()), "V": float(eq.get_energy_variance())}
                if obs is not None:
                    m = J.util.measure(obs, psi, sampler)
                    rec["obs"] = np.array([m["a"]["mean"][0], m["a"]["variance"][0]])
                    if outp is not None:
                        outp.write_observables(t, **m)
                if outp is not None:
                    outp.write_network_checkpoint(t, psi.get_parameters())
                log.append(rec)
            return log
        outs = run_world(w, program, sm)
        for o in outs[1:]:
            expect(len(o) == len(outs[0]), "rank-divergence", "ranks made different numbers of steps")
        for n in range(len(outs[0])):
            same_bits([o[n]["th"] for o in outs], "parameters after step %d of section %d" % (n, pi))
        got += outs[0]
    # history against the reference
    esc = max(1.0, np.abs(ref.dense(terms, L, 0.0)).sum(axis=1).max())

    def cmp(g, x, i):
        tol = 1e-7 + 1e3 * x["spread"]
        close(g["th"], x["th"], "step %d: parameters" % i, rtol=tol, atol=tol)
        if "E" in x:
            close(g["E"], x["E"], "step %d: energy" % i, rtol=0, atol=tol * esc * 100)
            close(g["V"], x["V"], "step %d: energy variance" % i, rtol=0, atol=tol * esc ** 2 * 100)
        if "dt" in x:
            close(g["dt"], x["dt"], "step %d: step size" % i, rtol=1e-5, atol=0)
            close(g["t"], x["t"], "step %d: time" % i, rtol=1e-5, atol=0)
        if "obs" in g:
            close(g["obs"], x["obs"], "step %d: measured observable" % i, rtol=0, atol=tol * 1e4)
        sm.probe("compared_steps")
    if scn["mode"] == "gss":
        if complete:
            cmp(got[0], want[-1], len(want) - 1)
        else:
            sm.probe("undecided")
    else:
        expect(len(got) == scn["steps"], "progress", "%d of %d steps made" % (len(got), scn["steps"]))
        for i in range(good):
            cmp(got[i], want[i], i)
        if not complete:
            sm.probe("undecided")
    if (scn["outp"] or scn["parts"] == 2) and scn["obs"] and complete:
        with disk.read("out.hdf5") as f:
            g = f["run/observables"]
            times, mean, var = np.array(g["times"]), np.array(g["a/mean"]), np.array(g["a/variance"])
        expect(len(times) == len(want) and len(mean) == len(want), "records", "%d times and %d means recorded, expected %d" % (len(times), len(mean), len(want)))
        tol = 1e-7 + 1e3 * max(x["spread"] for x in want)
        close(times, [x["t"] for x in want], "recorded times", rtol=1e-5, atol=1e-12)
        close(mean[:, 0], [x["obs"][0] for x in want], "recorded means", rtol=0, atol=tol * 1e4)
        close(var[:, 0], [x["obs"][1] for x in want], "recorded variances", rtol=0, atol=tol * 1e4)
        sm.probe("records_compared", len(times))
    sm.note(got[-1]["th"])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1
