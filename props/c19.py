"""C19 time steppers take identical, admissible steps on all processes."""
import numpy as np

from sim.lib import *

TIERS = {"quick": (360, 240), "thorough": (20000, 1200)}
RULE = ("R ranks; right-hand sides that are evaluated by global reductions over rank-local data (linear, oscillating, non-linear, real or "
        "complex, dependent on stage number and extra arguments, or returning the array they get), 3-8 steps with Euler / Heun / AdaptiveHeun, drawn tolerance, maximal "
        "step and norm; the right-hand side or its communication fails at a drawn evaluation (up to three times) and the step is repeated; "
        "non-trivial: more than one rank, or a failure fired")
ORACLE = "numpy implementation of the schemes with serial right-hand sides; error estimate recomputed from the accepted step; bit-equality across ranks"
STUB = ["mpi4py", "clock", "thread scheduling", "right-hand side (drawn function, evaluated through jVMC's global reductions)"]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4), ndevs=(1, 2))
    scn["kind"] = ["adaptive", "Heun", "adaptive", "Euler"][idx % 4]
    scn["n"] = rng.choice([1, 2, 4])
    scn["cpx"] = rng.random() < 0.4
    scn["numpy"] = rng.random() < 0.5
    scn["rhs"] = {"seed": rng.randrange(1 << 30), "lin": rng.choice([0.3, 2.0, 20.0]), "osc": rng.choice([0.0, 1.0]), "freq": rng.choice([1.0, 7.0]),
                  "nl": rng.choice([0.0, 0.3]), "stage": rng.choice([0.0, 0.0, 1e-3]), "still": rng.random() < 0.04}
    scn["dt"] = rng.choice([1e-3, 1e-2, 0.1, 0.3])
    scn["tol"] = rng.choice([1e-2, 1e-4, 1e-6, 1e-7])
    scn["max"] = rng.choice([1, 0.3, 0.3, 0.5])
    scn["norm"] = rng.choice([None, None, "max", "weighted", "global"])
    ops = []
    for i in range(rng.randrange(3, 9)):
        o = {"a": rng.choice([0.0, 0.5]), "fail": [], "back": rng.random() < 0.1}
        if rng.random() < 0.3:
            o["fail"] = [rng.randrange(8) for _ in range(rng.choice([1, 1, 2, 3]))]
        if scn["kind"] == "Heun" and rng.random() < 0.3:
            o["dt"] = rng.choice([0.05, 0.2])
        if scn["kind"] == "Heun" and rng.random() < 0.1:
            o["set"] = 0.07
        if rng.random() < 0.1:
            scn["faults"].append({"seam": "collective", "phase": "op%d" % i, "k": rng.randrange(8), "what": rng.choice(["mpierr", "interrupt"])})
        ops.append(o)
    scn["ops"] = ops
    scn["alias"] = rng.random() < 0.15         # dy/dt = y: the right-hand side returns the array it got
    return scn


def coeff(scn, rank):
    """Rank-local data whose global mean defines the right-hand side."""
    r = rs(scn["rhs"]["seed"] + 31 * rank)
    n = scn["n"]
    A = r.randn(scn["ndev"], 3, n, n)
    if scn["cpx"]:
        A = A + 1j * r.randn(*A.shape)
    return A


def shape_f(scn, M, y, t, a, intStep, xp):
    q = scn["rhs"]
    if scn["alias"]:
        return y
    if q["still"]:
        return 0.0 * y
    f = -q["lin"] * y + (M @ y) * 0.5 + q["osc"] * xp.cos(q["freq"] * t) + a
    f = f - q["nl"] * y * xp.abs(y) ** 2
    return f + q["stage"] * intStep


def norm_f(scn, xp, glob=None):
    w = np.arange(1, scn["n"] + 1)
    return {None: lambda v: xp.linalg.norm(v), "max": lambda v: xp.max(xp.abs(v)), "weighted": lambda v: xp.sqrt(xp.sum(w * xp.abs(v) ** 2)),
            "global": glob or (lambda v: xp.linalg.norm(v) * 2.0)}[scn["norm"]]


def ref_step(scn, f, norm, t, y, dt):
    """-> new state, step used, proposed next step, smallest relative distance of a decision to its threshold, error"""
    k = scn["kind"]
    if k == "Euler":
        return y + dt * f(y, t, 0), dt, dt, 1.0, None
    if k == "Heun":
        k0 = f(y, t, 0)
        k1 = f(y + dt * k0, t + dt, 1)
        return y + 0.5 * dt * (k0 + k1), dt, dt, 1.0, None
    margin = 1.0
    for _ in range(200):
        k0 = f(y, t, 0)
        d0 = 0.5 * dt * (k0 + f(y + dt * k0, t + dt, 1))
        d1 = 0.25 * dt * (k0 + f(y + 0.5 * dt * k0, t + 0.5 * dt, 2))
        y1 = y + d1
        k01 = f(y1, t + 0.5 * dt, 3)
        d1 = d1 + 0.25 * dt * (k01 + f(y1 + 0.5 * dt * k01, t + dt, 4))
        e = norm(d1 - d0)
        fe = scn["tol"] / e if e > 0 else np.inf
        # rounding of the two estimates
        noise = 1e-13 * (1 + np.max(np.abs(y))) / max(e, 1e-300)
        margin = min(margin, max(abs(fe - 1.0) - noise, 0.0) if np.isfinite(fe) else 1.0)
        tmp = min(max(0.2, 0.9 * fe ** 0.33333), 2.0)
        used = dt
        dt = min(dt * tmp, scn["max"])
        if not fe < 1.0:
            return y + d1, used, dt, margin, e
    return None


@guarded
def execute(scn, scratch, sm):
    w = make_world(scn)
    M = np.concatenate([coeff(scn, r).reshape(-1, scn["n"], scn["n"]) for r in range(scn["size"])]).mean(axis=0)
    norm = norm_f(scn, np)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        st = J.util.stepper
        adaptive = scn["kind"] == "adaptive"
        s = st.AdaptiveHeun(timeStep=scn["dt"], tol=scn["tol"], maxStep=scn["max"]) if adaptive else getattr(st, scn["kind"])(timeStep=scn["dt"])
        A = jnp.array(coeff(scn, ctx.rank))
        p = jnp.full(A.shape[:2], 1.0 / (A.shape[0] * A.shape[1] * ctx.size))
        y = rs(scn["seed"]).randn(scn["n"]) + (1j * rs(scn["seed"] + 1).randn(scn["n"]) if scn["cpx"] else 0)
        y = np.array(y) if scn["numpy"] else jnp.array(y)
        t = 0.3
        calls = {"n": 0, "at": None, "a": None, "extra": None}
        res = []
        dtref = scn["dt"]
        fired = [0]

        def f(v, tt, *, a, intStep, **kw):
            if calls["extra"] is not None:
                expect(kw == calls["extra"], "rhs-arguments", "right-hand side got extra arguments %s, expected %s" % (kw, calls["extra"]))
            n = calls["n"]
            calls["n"] += 1
            if calls["at"] is not None and n == calls["at"]:
                fired[0] += 1
                raise RuntimeError("simulated failure of the right-hand side")
            Mg = ctx.mpi.global_mean(A, p)
            if scn["alias"]:
                return v
            out = shape_f(scn, Mg, jnp.array(v), tt, a, intStep, jnp)
            return np.array(out) if scn["numpy"] else out

        def gnorm(v):
            x = jnp.broadcast_to(jnp.linalg.norm(v) * 2.0, (ctx.ndev, 1))
            return ctx.mpi.global_sum(x) / (ctx.ndev * ctx.size)
        kw0 = {} if (not adaptive or scn["norm"] is None) else {"normFunction": norm_f(scn, jnp, gnorm)}
        for i, o in enumerate(scn["ops"]):
            if "set" in o:
                s.set_dt(o["set"])
                dtref = o["set"]
            kw = dict(kw0)
            calls["extra"] = {}
            use = dtref
            if "dt" in o:
                kw["dt"] = o["dt"]
                calls["extra"] = {"dt": o["dt"]}
                use = o["dt"]
            y0 = np.array(y)
            a0 = o["a"]
            r = ref_step(scn, lambda v, tt, k: shape_f(scn, M, v, tt, a0, k, np), norm, t, y0, use)
            if r is None or not np.all(np.isfinite(r[0])) or np.max(np.abs(r[0])) > 1e3:
                break           # the drawn equation blows up
            ynew, used, dnext, margin, e = r
            tries = list(o["fail"]) + [None]
            ctx.phase("op%d" % i)
            for at in tries:
                calls["n"], calls["at"] = 0, at
                try:
                    out = s.step(t, f, y, a=a0, **kw)
                    break
                except (RuntimeError, KeyboardInterrupt) as ex:
                    if "imulated" not in str(ex):
                        raise
                    ctx.phase("retry")
                    same_bits([y0, np.array(y)], "rank %d: state of the caller after a failed step" % ctx.rank, "state-changed")
                    if at is None:
                        calls["n"] = 0
                        out = s.step(t, f, y, a=a0, **kw)
            ctx.phase(None)
            where = "rank %d, step %d (%s)" % (ctx.rank, i, scn["kind"])
            same_bits([y0, np.array(y)], "%s: state of the caller" % where, "state-changed")
            if margin < 1e-7:
                break           # accepting or not hinges on rounding
            got, dt = np.array(out[0]), float(out[1])
            close(dt, used, "%s: step size used" % where, rtol=1e-4, atol=0)
            if not adaptive:
                close(got, ynew, "%s: new state" % where, rtol=1e-10, atol=1e-12, scale=max(1.0, np.max(np.abs(ynew))))
            if adaptive:
                expect(dt <= scn["max"] * (1 + 1e-12), "step-too-large", "%s: step %g above the maximum %g" % (where, dt, scn["max"]))
                # the error estimate of the step really taken
                one = dict(scn, tol=np.inf)
                ynew, _, _, _, err = ref_step(one, lambda v, tt, k: shape_f(scn, M, v, tt, a0, k, np), norm, t, y0, dt)
                close(got, ynew, "%s: new state" % where, rtol=1e-9, atol=1e-12, scale=max(1.0, np.max(np.abs(ynew))))
                expect(err <= scn["tol"] * (1 + 1e-6) + 1e-13, "inaccurate", "%s: accepted error %g, tolerance %g" % (where, err, scn["tol"]))
                dtref = dnext
            # stay on the reference trajectory; the stepper's own step size carries on
            y = (np.array(ynew) if scn["numpy"] else jnp.array(ynew))
            res.append((got, dt))
            t = t + used if not o["back"] else t
        return res, fired[0]
    outs = run_world(w, program, sm)
    for i in range(max(len(o[0]) for o in outs)):
        expect(all(len(o[0]) > i for o in outs), "rank-divergence", "ranks made different numbers of steps")
        same_bits([o[0][i][0] for o in outs], "state after step %d" % i)
        same_bits([np.float64(o[0][i][1]) for o in outs], "size of step %d" % i)
        sm.note(outs[0][0][i][0])
    if outs[0][1]:
        sm.fault("rhs:raise", sum(o[1] for o in outs))
    sm.probe("steps", len(outs[0][0]))
    sm.d["nontrivial"] = scn["size"] > 1 or bool(outs[0][1]) or bool(w.fault_counts)


def valid(scn):
    return len(scn["ops"]) > 0
