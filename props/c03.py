"""C03 exact sampling: every basis state once, exact probabilities, over histories of calls."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (110, 240), "thorough": (4000, 1500)}
RULE = ("an exact sampler on R ranks x D devices (shares not divisible by devices or ranks included), local dimension 2-4, 1D/2D, and a "
        "history of 4-12 parameter changes (small steps and jumps), sampling calls with and without explicit parameters, non-finite and zero amplitudes, "
        "failing communication / device operations with retry; non-trivial: more than one rank or device and at least two sampling calls")
ORACLE = "enumeration of the basis with amplitudes from the bare network function; every state exactly once; sum of probabilities one"
ASSUMPTIONS = ["no process is left without a basis state; changes of Re log psi between calls stay below the floating point range"]

SHAPES = [(2, (3,)), (2, (4,)), (3, (2,)), (2, (2, 2)), (4, (2,)), (2, (2,)), (3, (1, 3)), (2, (5,)), (2, (2, 3)), (2, (7,))]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4))
    widen(scn, rng)
    lDim, shape = SHAPES[rng.randrange(len(SHAPES))]
    while lDim ** int(np.prod(shape)) < scn["size"]:
        lDim, shape = SHAPES[rng.randrange(len(SHAPES))]
    scn["lDim"], scn["shape"] = lDim, list(shape)
    scn["ansatz"] = "table" if lDim != 2 or rng.random() < 0.7 else rng.choice(["cpxrbm", "ffn"])
    scn["lpf"] = rng.choice([0.5, 0.5, 1.0])
    scn["batch"] = rng.choice([1000, 3, 1])
    ops = [{"op": "sample"}]
    # the norm may drift step by step to any magnitude
    drift = scn["ansatz"] == "table" and rng.random() < 0.3
    far = 0.0
    way = rng.choice([-1.0, 1.0])
    for i in range(rng.randrange(3, 8)):
        k = rng.random()
        s = rng.randrange(1 << 30)
        sc = rng.choice([0.1, 1.0, 3.0])
        off = rng.choice([0.0, 0.0, 5.0, -30.0, 40.0])
        if drift:
            off = far
        if k < 0.3 or (drift and k < 0.55):
            if drift:
                off = far = far + way * rng.choice([100.0, 180.0, 200.0])
            ops.append({"op": "set", "s": s, "scale": sc, "off": off})
            if drift:
                ops.append({"op": "sample"})
        elif k < 0.55:
            ops.append({"op": "sample"})
        elif k < 0.75:
            ops.append({"op": "samplep", "s": s, "scale": sc, "off": off, "form": rng.choice(["vec", "vec", "tree"])})
        elif k < 0.87:
            ops.append({"op": "bad", "what": rng.choice(["nan", "inf"]), "s": s, "explicit": rng.random() < 0.5})
        elif scn["ansatz"] == "table" and not drift:
            ops.append({"op": "zero", "s": s})
    ops.append({"op": "set", "s": rng.randrange(1 << 30), "scale": 0.5, "off": far})
    ops.append({"op": "sample"})
    if rng.random() < 0.4:      # a small step, as in the integration of an equation of motion
        k = rng.randrange(1, len(ops) - 1)
        ops[k:k] = [{"op": "sample"}, {"op": "nudge", "s": rng.randrange(1 << 30)}, {"op": "sample"}]
    scn["ops"] = ops
    if rng.random() < 0.3:
        c = [i for i, o in enumerate(ops) if o["op"] in ("sample", "samplep")]
        scn["faults"].append({"seam": rng.choice(["collective", "device"]), "phase": "op%d" % rng.choice(c),
                              "k": rng.choice([0, 0, 1, 2]), "what": rng.choice(["mpierr", "interrupt", "oom"])})
    return scn


def theta(scn, o, n):
    t = rs(o["s"]).randn(n) * o["scale"]
    if scn["ansatz"] == "table":
        t[:n // 2] += o["off"]
    return t


@guarded
def execute(scn, scratch, sm):
    shape, lDim = tuple(scn["shape"]), scn["lDim"]
    N = lDim ** int(np.prod(shape))
    net = ref.refnet(scn["ansatz"], shape, lDim)
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=scn["seed"] % 1000, lDim=lDim, batchSize=scn["batch"])
        sampler = J.sampler.ExactSampler(psi, shape, lDim=lDim, logProbFactor=scn["lpf"])
        out = []
        cur = np.array(psi.get_parameters())
        expect(not np.any(np.isnan(cur)), "init", "initial parameters are not finite")
        for i, o in enumerate(scn["ops"]):
            k = o["op"]
            if k == "set":
                cur = theta(scn, o, net.n)
                psi.set_parameters(jnp.array(cur))
                continue
            if k == "nudge":
                cur = cur + rs(o["s"]).randn(net.n) * 1e-6
                psi.set_parameters(jnp.array(cur))
                continue
            use, arg = cur, None
            if k == "zero":
                cur = theta(scn, {"s": o["s"], "scale": 0.5, "off": 0.0}, net.n)
                cur[:net.n // 2][rs(o["s"]).rand(net.n // 2) < 0.4] = -np.inf
                cur[0] = 0.1
                use = cur
                psi.set_parameters(jnp.array(cur))
            if k == "samplep":
                use = theta(scn, o, net.n)
                arg = jnp.array(use)
                if o["form"] == "tree":
                    import flax
                    psi.set_parameters(arg)
                    arg = flax.core.frozen_dict.freeze(psi.params)
                    psi.set_parameters(jnp.array(cur))
            if k == "bad":
                use = cur.copy()
                use[rs(o["s"]).randint(max(1, net.n // 2))] = np.nan if o["what"] == "nan" else np.inf
                if o["explicit"]:
                    arg = jnp.array(use)
                else:
                    psi.set_parameters(jnp.array(use))
            ctx.phase("op%d" % i)
            try:
                res = sampler.sample(parameters=arg)
            except (RuntimeError, KeyboardInterrupt) as e:
                if "imulated" not in str(e):
                    raise
                ctx.phase("retry")
                same_bits([cur if not (k == "bad" and not o["explicit"]) else use, np.array(psi.get_parameters())],
                          "rank %d: parameters after a failed sampling call" % ctx.rank, "params-changed")
                res = sampler.sample(parameters=arg)
            ctx.phase(None)
            if k == "bad" and not o["explicit"]:
                psi.set_parameters(jnp.array(cur))
            same_bits([cur, np.array(psi.get_parameters())], "rank %d: parameters before and after sampling" % ctx.rank, "params-changed")
            if k != "bad":
                out.append((i, use.copy(), [np.array(x) for x in res]))
        return out
    outs = run_world(w, program, sm)
    ncalls = len(outs[0])
    for c in range(ncalls):
        i, th, _ = outs[0][c]
        where = "sampling call at step %d" % i
        conf = ref.all_states([o[c][2][0] for o in outs])
        lp = ref.all_states([o[c][2][1] for o in outs])
        p = ref.all_states([o[c][2][2] for o in outs])
        for r, o in enumerate(outs):
            expect(o[c][2][0].shape[2:] == shape and o[c][2][0].shape[:2] == o[c][2][1].shape == o[c][2][2].shape, "wrong-shape",
                   "%s: rank %d shapes %s" % (where, r, [x.shape for x in o[c][2]]))
        with np.errstate(all="ignore"):
            want_lp = net.logpsi(th)
            expo = want_lp.real / scn["lpf"]
            want = np.exp(expo - np.nanmax(expo))
        want = want / want.sum()
        expect(not np.any(np.isnan(p)), "nan-probability", "%s: probabilities contain NaN" % where)
        expect(np.all(p >= 0), "negative-probability", where)
        pos = p > 0
        conf, lp, p = conf[pos], lp[pos], p[pos]
        expect(conf.min() >= 0 and conf.max() < lDim, "invalid-state", "%s: states outside the local dimension" % where)
        idx = net.idx(conf)
        cnt = np.bincount(idx, minlength=N)
        must = want > 1e-250
        may = want > 0
        expect(np.all(cnt[must] == 1) and np.all(cnt[~may] == 0) and np.all(cnt <= 1), "coverage",
               "%s: states counted %s times (expected once each)" % (where, cnt.tolist()))
        close(p, want[idx], "%s: probabilities" % where, rtol=1e-9, atol=1e-14, scale=1.0)
        close(p.sum(), 1.0, "%s: sum of probabilities" % where, rtol=1e-10)
        close(lp, want_lp[idx], "%s: logarithmic amplitudes" % where, rtol=1e-10, atol=1e-12)
        sm.note(p)
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1 and ncalls >= 2


def valid(scn):
    return any(o["op"] in ("sample", "samplep", "zero") for o in scn["ops"]) and scn["lDim"] ** int(np.prod(scn["shape"])) >= scn["size"]
