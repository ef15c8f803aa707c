"""C06 Monte Carlo samples: valid states, right amplitudes and weights, right distribution."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (64, 300), "thorough": (2500, 1500)}
RULE = ("R ranks x D devices x hundreds of independent chains (only the last sample of each enters the statistics), shipped proposals, "
        "exponents, direct sampling with and without symmetries, a history of parameter changes (with large amplitude offsets) and calls "
        "with explicit parameters, failed calls; or exact counting of accepted moves; non-trivial: at least two sampling calls and more than one rank or device")
ORACLE = ("chi-square test of independent samples against |psi|^mu on the whole basis (alarm below p = 1e-9), amplitudes and weights from the "
          "bare network function, acceptance counted from consecutive states")
ASSUMPTIONS = ["distributions are compared only where the exact Metropolis kernel says that the chains have relaxed (remaining chi-square noncentrality below 0.5)"]

THERM, STEPS = 40, 6

CASES = [
    {"prop": "propose_spin_flip", "shape": [3], "lDim": 2, "ansatz": "table", "lpf": 0.5, "mus": [2, 1, 0.5, 0]},
    {"prop": "propose_spin_flip_Z2", "shape": [3], "lDim": 2, "ansatz": "table", "lpf": 0.5, "mus": [2, 1]},
    {"prop": "propose_spin_flip_zeroMag", "shape": [3, 2], "lDim": 2, "ansatz": "table", "lpf": 0.5, "mus": [2, 1]},
    {"prop": "propose_POVM_outcome", "shape": [2], "lDim": 4, "ansatz": "rtable", "lpf": 1.0, "mus": [1]},
    {"prop": "propose_POVM_outcome", "shape": [1, 2], "lDim": 4, "ansatz": "rtable", "lpf": 1.0, "mus": [1, 2]},
    {"prop": None, "shape": [3], "lDim": 2, "ansatz": "gtable", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [3], "lDim": 2, "ansatz": "rnn", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [4], "lDim": 2, "ansatz": "symrnn", "lpf": 0.5, "mus": [2]},
    {"prop": "propose_spin_flip", "shape": [2, 3], "lDim": 2, "ansatz": "table", "lpf": 0.5, "mus": [2, 1]},
    {"prop": "custom", "shape": [2], "lDim": 3, "ansatz": "table", "lpf": 0.5, "mus": [2]},
    {"prop": "propose_spin_flip", "shape": [3], "lDim": 2, "ansatz": "two", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [2], "lDim": 4, "ansatz": "rnn1", "lpf": 1.0, "mus": [1]},
    {"prop": None, "shape": [2, 2], "lDim": 2, "ansatz": "rnn2d", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [3], "lDim": 2, "ansatz": "symtworn", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [3], "lDim": 2, "ansatz": "tworn", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [2, 2], "lDim": 2, "ansatz": "symrnn2d", "lpf": 0.5, "mus": [2]},
    {"prop": None, "shape": [3], "lDim": 2, "ansatz": "lstm", "lpf": 0.5, "mus": [2]},
    {"prop": "propose_spin_flip", "shape": [3], "lDim": 2, "ansatz": "sym", "lpf": 0.5, "mus": [2, 1]},
]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3), ndevs=(1, 2, 3))
    if idx % 6 == 5:
        scn["mode"] = "ratio"
        scn["case"] = CASES[0]
        scn["chains"] = rng.choice([1, 3])
        scn["T"] = 6
    elif idx % 12 == 8:
        scn["mode"] = "balance"
        scn["case"] = [c for c in CASES if (c["prop"] or "").startswith("propose") and c["ansatz"] in ("table", "rtable")][idx // 12 % 6]
        scn["chains"] = 400
        scn["T"] = 24
    else:
        scn["mode"] = "dist"
        scn["case"] = CASES[(idx - idx // 6) % len(CASES)]
        scn["chains"] = 600
        scn["T"] = 2
    scn["mu"] = rng.choice(scn["case"]["mus"]) if scn["mode"] != "balance" else 0
    scn["batch"] = 400
    ops = []
    for i in range(2):
        ops.append({"op": rng.choice(["set", "set", "expl"]), "s": rng.randrange(1 << 30), "scale": rng.choice([0.3, 0.6, 1.2]), "off": rng.choice([0.0, 12.0, -12.0]),
                    "peak": 0.0})
        ops.append({"op": "sample"})
    if rng.random() < 0.5:
        ops.append({"op": "sample"})
    # decreasing: probability has to leave the peak, which takes few updates, and not to find it
    peaks = sorted([rng.choice([0.0, 0.0, 2.5, 4.0, 8.0]) for _ in range(2)], reverse=True)
    for o, pk in zip([o for o in ops if o["op"] != "sample"], peaks):
        o["peak"] = pk
    scn["ops"] = ops
    if rng.random() < 0.25:
        scn["faults"].append({"seam": rng.choice(["collective", "device"]), "phase": "call%d" % rng.randrange(2), "k": rng.choice([0, 1, 2]),
                              "what": rng.choice(["mpierr", "oom", "interrupt"])})
    return scn


def custom(key, s, info):
    import jax
    k1, k2 = jax.random.split(key)
    i = jax.random.randint(k1, (), 0, s.shape[0])
    return s.at[i].set((s[i] + 1 + jax.random.randint(k2, (), 0, info["d"] - 1)) % info["d"])


def start_state(scn):
    init = np.zeros(tuple(scn["case"]["shape"]), dtype=np.int32)
    if scn["case"]["prop"] == "propose_spin_flip_zeroMag":
        init.ravel()[:init.size // 2] = 1
    return init


def start_index(scn, net):
    return int(net.idx(start_state(scn)[None])[0])


def theta(scn, o, net):
    t = rs(o["s"]).randn(net.n) * o["scale"]
    if scn["case"]["ansatz"] in ("table", "rtable"):
        m = net.n // 2
        # bounded ratios between states, any common factor
        t[:m] = np.clip(t[:m], -1.5, 1.5) + o["off"]
        # the state the chains start from may dominate: chains leave it rarely and return quickly
        t[start_index(scn, net)] += o.get("peak", 0.0)
    return t


def chi2_p(counts, probs):
    from scipy.stats import chi2
    n = counts.sum()
    order = np.argsort(probs)
    e, c = probs[order] * n, counts[order].astype(float)
    # merge small cells
    me, mc = [], []
    ae = ac = 0.0
    for x, y in zip(e, c):
        ae += x
        ac += y
        if ae >= 8:
            me.append(ae)
            mc.append(ac)
            ae = ac = 0.0
    if me and ae > 0:
        me[-1] += ae
        mc[-1] += ac
    if len(me) < 2:
        return 1.0
    me, mc = np.array(me), np.array(mc)
    return float(chi2.sf(((mc - me) ** 2 / me).sum(), len(me) - 1))


def proposal(scn, net):
    """Proposal probabilities of the case. Used only to decide whether the chains had time to relax."""
    cs = scn["case"]
    d, N = cs["lDim"], len(net.states)
    st = net.states.reshape((N, -1))
    Q = np.zeros((N, N))

    def put(i, s, q):
        Q[i, int(net.idx(s.reshape((1,) + tuple(cs["shape"])))[0])] += q
    for i in range(N):
        s = st[i]
        if cs["prop"] == "propose_spin_flip_zeroMag":
            up, dn = np.where(s == 1)[0], np.where(s == 0)[0]
            moves = []
            for a in up:
                for b in dn:
                    z = s.copy()
                    z[a], z[b] = 0, 1
                    moves.append(z)
        else:
            moves = []
            for a in range(len(s)):
                for k in range(1, d):
                    z = s.copy()
                    z[a] = (z[a] + k) % d
                    moves.append(z)
        if not moves:
            Q[i, i] = 1.0
        for z in moves:
            if cs["prop"] in ("propose_spin_flip_Z2", "propose_spin_flip_zeroMag"):
                put(i, z, 0.8 / len(moves))
                put(i, 1 - z, 0.2 / len(moves))
            else:
                put(i, z, 1.0 / len(moves))
    return Q


def evolve(Q, expo, start, steps):
    A = np.exp(np.minimum(0.0, expo[None, :] - expo[:, None]))
    K = Q * A
    K[np.arange(len(K)), np.arange(len(K))] += 1 - K.sum(axis=1)
    return start @ np.linalg.matrix_power(K, steps)


def rare_p(counts, probs):
    """smallest tail probability of a cell, corrected for the number of cells"""
    from scipy.stats import binom
    n = int(counts.sum())
    p = np.minimum(probs, 1.0)
    return float(len(p) * min(binom.sf(counts - 1, n, p).min(), binom.cdf(counts, n, p).min()))


@guarded
def execute(scn, scratch, sm):
    cs = scn["case"]
    shape, lDim = tuple(cs["shape"]), cs["lDim"]
    net = ref.refnet(cs["ansatz"], shape, lDim)
    gen = cs["prop"] is None
    R, D, C, T = scn["size"], scn["ndev"], scn["chains"], scn["T"]
    ratio = scn["mode"] == "ratio"
    balance = scn["mode"] == "balance"
    n = R * D * C * (1 if gen else T)
    init = None
    if cs["prop"] == "propose_spin_flip_zeroMag":
        init = start_state(scn)
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, cs["ansatz"], shape, seed=1, lDim=lDim, batchSize=scn["batch"])
        prop = None if gen else (custom if cs["prop"] == "custom" else getattr(J.sampler, cs["prop"]))
        s = J.sampler.MCSampler(psi, shape, scn["seed"], updateProposer=prop, numChains=C, numSamples=n,
                                updateProposerArg={"d": lDim} if cs["prop"] == "custom" else None,
                                thermalizationSweeps=0 if ratio else 200 if balance else THERM,
                                sweepSteps=1 if ratio or balance else STEPS,
                                initState=None if init is None else jnp.array(init), mu=scn["mu"], logProbFactor=cs["lpf"])
        out = []
        cur = theta(scn, {"s": 5, "scale": 0.3, "off": 0.0, "peak": 8.0}, net)
        psi.set_parameters(jnp.array(cur))
        expl = None
        c = 0
        if ratio:
            expect(float(np.asarray(s.acceptance_ratio()).ravel()[0]) == 0.0, "acceptance", "acceptance ratio before sampling")
        for o in scn["ops"]:
            if o["op"] == "set":
                cur, expl = theta(scn, o, net), None
                psi.set_parameters(jnp.array(cur))
            elif o["op"] == "expl":
                expl = theta(scn, o, net)
            else:
                kw = {} if expl is None else {"parameters": jnp.array(expl)}
                ctx.phase("call%d" % c)
                failed = False
                try:
                    res = s.sample(**kw)
                except (RuntimeError, KeyboardInterrupt) as e:
                    if "imulated" not in str(e):
                        raise
                    ctx.phase("retry")
                    failed = True
                    same_bits([cur, np.array(psi.get_parameters())], "parameters after a failed sampling call", "params-changed")
                    res = s.sample(**kw)
                ctx.phase(None)
                c += 1
                same_bits([cur, np.array(psi.get_parameters())], "parameters before and after sampling", "params-changed")
                acc = None if gen else np.asarray(s.acceptance_ratio())
                out.append((cur if expl is None else expl, [np.array(x) for x in res], acc, failed))
                expl = None
        return out
    outs = run_world(w, program, sm)
    ncalls = len(outs[0])
    last = None
    if not gen:
        Q = proposal(scn, net)
        dist = np.zeros(len(net.states))
        dist[start_index(scn, net)] = 1.0
    for c in range(ncalls):
        th = outs[0][c][0]
        where = "call %d (%s, mu %s)" % (c, cs["prop"] or cs["ansatz"], scn["mu"])
        lp_all = net.logpsi(th)
        conf = [o[c][1][0] for o in outs]
        lp = ref.all_states([o[c][1][1] for o in outs])
        p = ref.all_states([o[c][1][2] for o in outs])
        flat = ref.all_states(conf)
        expect(len(flat) == n, "accounting", "%s: %d samples, expected %d" % (where, len(flat), n))
        expect(flat.min() >= 0 and flat.max() < lDim, "invalid-state", "%s: states outside the local dimension" % where)
        if init is not None:
            expect(np.all(flat.reshape((len(flat), -1)).sum(axis=1) == init.sum()), "sector", "%s: magnetisation not conserved" % where)
        idx = net.idx(flat)
        close(lp, lp_all[idx], "%s: amplitudes" % where, rtol=1e-9, atol=1e-11)
        if gen:
            wt = np.ones(len(idx))
            expo = lp_all.real / cs["lpf"]
        else:
            wt = np.exp((1.0 / cs["lpf"] - scn["mu"]) * (lp_all.real - lp_all.real.max()))[idx]
            expo = scn["mu"] * lp_all.real
        close(p, wt / wt.sum(), "%s: weights" % where, rtol=1e-9, scale=(wt / wt.sum()).max())
        probs = np.exp(expo - expo.max())
        if init is not None:
            probs = probs * (net.states.reshape((len(probs), -1)).sum(axis=1) == init.sum())
        probs /= probs.sum()
        sm.note(flat)
        if ratio:
            # consecutive states of every chain, continuing where the previous call ended
            ser = np.stack([x.reshape((D, T, C) + shape) for x in conf])          # R D T C
            start = last if last is not None else np.zeros(ser[:, :, :1].shape, dtype=ser.dtype)
            last = ser[:, :, -1:]
            seq = np.concatenate([start, ser], axis=2)
            moved = np.any(np.diff(seq, axis=2).reshape(ser.shape[:4] + (-1,)) != 0, axis=-1)
            want = moved.sum() / moved.size
            if not outs[0][c][3]:
                for r, o in enumerate(outs):
                    close(np.asarray(o[c][2], dtype=float).ravel(), [want], "%s: acceptance ratio on rank %d" % (where, r), rtol=1e-12)
            sm.probe("ratio_checks")
            continue
        same_bits([o[c][2] for o in outs] if not gen else [0], "acceptance ratio")
        if balance:
            # every proposal is accepted: moves there and back have to be equally frequent (chains are independent)
            ser = np.stack([net.idx(x.reshape((-1,) + shape)).reshape((D, T, C)) for x in conf]).transpose(0, 1, 3, 2).reshape((-1, T))
            N = len(probs)
            step = ser[:, :-1] * N + ser[:, 1:]
            if step.shape[1] % 2:
                step = step[:, 1:]
            net_flow = np.zeros((len(ser), N * N))
            np.add.at(net_flow, (np.arange(len(ser))[:, None], step), 1.0)
            net_flow = net_flow.reshape((-1, N, N))
            net_flow = net_flow - net_flow.transpose(0, 2, 1)
            var = (net_flow ** 2).sum(axis=0)
            z = np.abs(net_flow.sum(axis=0)) / np.sqrt(np.maximum(var, 60.0))
            i, j = np.unravel_index(z.argmax(), z.shape)
            expect(z.max() < 7.5, "distribution", "%s: moves between states %d and %d are proposed more often in one direction (%d more, %.1f standard deviations)" % (
                where, i, j, abs(net_flow[:, i, j].sum()), z.max()))
            sm.probe("balance_tests")
            continue
        if not gen:
            # the bias that is left after this number of updates has to be negligible (chi-square noncentrality)
            dist = evolve(Q, expo, dist, THERM * STEPS + T * STEPS)
            sel = probs > 0
            if R * D * C * ((dist - probs)[sel] ** 2 / probs[sel]).sum() > 0.5:
                sm.probe("not_relaxed")
                continue
        # last sample of every chain
        if gen:
            picks = [net.idx(x.reshape((-1,) + shape)) for x in conf]
        else:
            picks = [net.idx(x.reshape((D, T, C) + shape)[:, -1].reshape((-1,) + shape)) for x in conf]
        N = len(probs)
        tot = np.zeros(N)
        for r, k in enumerate(picks):
            cnt = np.bincount(k, minlength=N)
            tot += cnt
            expect(np.all(cnt[probs == 0] == 0), "distribution", "%s: states of probability zero sampled" % where)
            pv = chi2_p(cnt, probs)
            expect(pv > 1e-10, "distribution", "%s: rank %d: counts %s, expected %s (p = %.2g)" % (
                where, r, cnt.tolist(), np.round(probs * cnt.sum(), 1).tolist(), pv))
        pv = chi2_p(tot, probs)
        expect(pv > 1e-9, "distribution", "%s: counts %s, expected %s (p = %.2g)" % (where, tot.tolist(), np.round(probs * tot.sum(), 1).tolist(), pv))
        pv = rare_p(tot, probs)
        expect(pv > 1e-9, "distribution", "%s: counts %s, expected %s (tail probability %.2g)" % (
            where, tot.tolist(), np.round(probs * tot.sum(), 1).tolist(), pv))
        sm.probe("chi2_tests", R + 1)
    sm.d["nontrivial"] = R * D > 1 and ncalls >= 2


def valid(scn):
    return any(o["op"] == "sample" for o in scn["ops"])
