"""C18 measured observables are the sample mean, variance and standard error."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (54, 240), "thorough": (5000, 1500)}
RULE = ("R ranks x D devices; exact, Markov-chain and direct sampling with numbers of samples that do not divide; dictionaries of operators "
        "(single, lists, with arguments, with and without optional arguments, several per name, batched) or POVM observables (default or own, 1D and 2D, given or drawn "
        "samples); 2-4 measurements with parameter, sample-number and argument changes and failing communication or device computations in "
        "between; non-trivial: more than one rank or device")
ORACLE = "numpy sums over the samples all ranks drew, with dense operators and the bare network; bit-equality across ranks"

L = 3
LAYOUT = ["single", "list", "args", "mixed"]


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({} if th else {"sizes": (1, 2, 3), "ndevs": (1, 2)}))
    scn["mode"] = ["pure", "povm", "pure"][idx % 3]
    scn["sampler"] = rng.choice(["exact", "mc", "gen"])
    if scn["mode"] == "pure":
        scn["ansatz"] = "gtable" if scn["sampler"] == "gen" else rng.choice(["table", "cpxrbm", "two"])
        names = rng.sample(["H", "mag", "b", "zz", "a"], rng.choice([1, 2, 3]))
        scn["obs"] = []
        for n in names:
            lay = rng.choice(LAYOUT)
            k = 1 if lay == "single" else rng.choice([2, 3]) if lay == "mixed" else rng.choice([1, 2, 3])
            scn["obs"].append({"name": n, "layout": lay, "ops": [
                {"ham": rng.randrange(1 << 30) if th else rng.randrange(3), "batch": rng.choice([-1, -1, 2, 3]),
                 "plain": rng.random() < 0.5} for _ in range(k)]})
    else:
        scn["dim"] = rng.choice(["1D", "1D", "2D"])
        scn["L"] = 2 if scn["dim"] == "2D" else rng.choice([2, 3])
        scn["ansatz"] = "gtable1" if scn["sampler"] == "gen" else "rtable"
        if scn["dim"] == "2D":
            scn["sampler"] = rng.choice(["exact", "mc"])
            scn["ansatz"] = "rtable"
        scn["own"] = rng.random() < 0.4
        scn["given"] = rng.random() < 0.3
        scn["angles"] = rng.choice([[0, 0], [0.4, 1.1]])
    ops = []
    for i in range(rng.choice([2, 3, 4])):
        ops.append({"t": rng.choice([0.0, 0.6]), "params": rng.randrange(1 << 30) if rng.random() < 0.4 else None,
                    "n": rng.choice([None, None, 5, 11]) if scn["mode"] == "pure" else None, "set": rng.choice([None, None, 6, 13])})
    scn["ops"] = ops
    scn["n"] = rng.choice([4, 7, 12])
    if rng.random() < 0.35:
        seam = rng.choice(["device", "collective"])
        scn["faults"].append({"seam": seam, "phase": "op%d" % rng.randrange(len(ops)), "k": rng.choice([0, 1, 2]),
                              "what": rng.choice(["oom", "interrupt"] if seam == "device" else ["mpierr", "interrupt"])})
    return scn


def plain(e, k):
    """Operators given without arguments although their prefactors take an optional one."""
    return e["layout"] == "mixed" and bool(e["ops"][k].get("plain"))


def stats(p, v):
    m = np.sum(p * v)
    return m, np.sum(p * np.abs(v - m) ** 2)


def povm_obs(angles):
    s = np.array([[0, 0, 1], [2 * np.sqrt(2) / 3, 0, -1 / 3], [-np.sqrt(2) / 3, np.sqrt(2 / 3), -1 / 3], [-np.sqrt(2) / 3, -np.sqrt(2 / 3), -1 / 3]])
    th, ph = angles
    rt = np.array([[np.cos(th), 0, np.sin(th)], [0, 1, 0], [-np.sin(th), 0, np.cos(th)]])
    rp = np.array([[np.cos(ph), -np.sin(ph), 0], [np.sin(ph), np.cos(ph), 0], [0, 0, 1]])
    s = s @ (rt.T @ rp.T)
    # rho = sum_a P_a (3 * 2 M_a - 1) with M_a = (1 + s_a sigma) / 4: Tr(sigma_k dual_a) = 3 s_a[k]
    return {n: 3 * s[:, k] for k, n in enumerate("XYZ")}


@guarded
def execute(scn, scratch, sm):
    pure = scn["mode"] == "pure"
    shape = (L,) if pure else ((scn["L"],) if scn["dim"] == "1D" else (scn["L"], scn["L"]))
    lDim = 2 if pure else 4
    net = ref.refnet(scn["ansatz"], shape, lDim)
    w = make_world(scn)
    lpf = 0.5 if pure else 1.0

    def program(ctx):
        import jax.numpy as jnp
        from importlib import import_module
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=3, lDim=lDim)
        cur = rs(scn["seed"]).randn(net.n) * 0.3
        psi.set_parameters(jnp.array(cur))
        if scn["sampler"] == "exact":
            sampler = J.sampler.ExactSampler(psi, shape, lDim=lDim, logProbFactor=lpf)
        else:
            prop = J.sampler.propose_spin_flip if pure else J.sampler.propose_POVM_outcome
            sampler = J.sampler.MCSampler(psi, shape, 7, updateProposer=prop, numChains=2, numSamples=scn["n"], thermalizationSweeps=2,
                                          sweepSteps=int(np.prod(shape)), **({} if pure else {"logProbFactor": 1.0}))
        rec = []
        orig = sampler.sample

        def sample(*a, **k):
            out = orig(*a, **k)
            rec.append([np.array(x) for x in out])
            return out
        sampler.sample = sample
        if pure:
            built = [[ref.build(ctx, ref.gen_terms(rs(o["ham"]), L, 3, tdep=e["layout"] in ("args", "mixed")), L, batch=o["batch"]) for o in e["ops"]]
                     for e in scn["obs"]]
        else:
            P = import_module("jVMC.operator.povm")
            povm = P.POVM({"dim": scn["dim"], "L": scn["L"]}, theta=scn["angles"][0], phi=scn["angles"][1])
            own = {"q": jnp.array(rs(5).randn(4)), "Y": povm.observables["Y"]}

        res = []
        for i, o in enumerate(scn["ops"]):
            if o["params"] is not None:
                cur = rs(o["params"]).randn(net.n) * 0.3
                psi.set_parameters(jnp.array(cur))
            if o["set"] is not None:
                sampler.set_number_of_samples(o["set"])

            def call():
                del rec[:]
                if pure:
                    obs = {}
                    for e, b in zip(scn["obs"], built):
                        if e["layout"] == "single":
                            obs[e["name"]] = b[0]
                        elif e["layout"] == "list":
                            obs[e["name"]] = list(b)
                        elif e["layout"] == "args":
                            obs[e["name"]] = [(q, o["t"]) for q in b]
                        else:
                            obs[e["name"]] = [q if plain(e, k) else (q, o["t"] + 0.1 * k) for k, q in enumerate(b)]
                    kw = {} if o["n"] is None else {"numSamples": o["n"]}
                    return J.util.measure(obs, psi, sampler, **kw)
                kw = {"observables": own} if scn["own"] else {}
                if scn["given"]:
                    c, _, p = sampler.sample()
                    return P.measure_povm(povm, sampler, sampleConfigs=c, probs=p, **kw)
                return P.measure_povm(povm, sampler, **kw)
            ctx.phase("op%d" % i)
            try:
                m = call()
            except (RuntimeError, KeyboardInterrupt) as e:
                if "imulated" not in str(e):
                    raise
                ctx.phase("retry")
                m = call()
            ctx.phase(None)
            expect(len(rec) == 1, "samples", "%d sets of samples drawn in one measurement" % len(rec))
            res.append(({n: {k: np.array(v) for k, v in d.items()} for n, d in m.items()}, rec[-1], cur.copy()))
        return res
    outs = run_world(w, program, sm)
    for i, o in enumerate(scn["ops"]):
        conf = ref.all_states([q[i][1][0] for q in outs])
        p = ref.all_states([q[i][1][2] for q in outs])
        lp = net.logpsi(outs[0][i][2])
        ids = net.idx(conf)
        want = {}
        N = len(ids)
        err = 0.0 if scn["sampler"] == "exact" else 1.0 / np.sqrt(N)
        if pure:
            if scn["sampler"] != "exact":
                ask = o["n"] or next((q["set"] for q in scn["ops"][i::-1] if q["set"]), scn["n"])
                expect(N >= ask, "samples", "%d samples, %d requested" % (N, ask))
            for e in scn["obs"]:
                r = []
                for k, q in enumerate(e["ops"]):
                    tm = None if e["layout"] in ("single", "list") else ref.T0 if plain(e, k) else o["t"] + (0.1 * k if e["layout"] == "mixed" else 0)
                    tt = ref.gen_terms(rs(q["ham"]), L, 3, tdep=e["layout"] in ("args", "mixed"))
                    El = (ref.dense(tt, L, tm) * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)[ids]
                    m, v = stats(p, El)
                    r.append((m.real, v, err * np.sqrt(v)))
                want[e["name"]] = [np.array(x) for x in zip(*r)]
        else:
            ob = povm_obs(scn["angles"])
            if scn["own"]:
                ob = {"q": rs(5).randn(4), "Y": ob["Y"]}
            for n, vec in ob.items():
                x = vec[conf]
                ax = tuple(range(1, x.ndim))
                m, v = stats(p, x.mean(axis=ax))
                want[n] = [m, v, err * np.sqrt(v)]
                for c in range(scn["L"]):
                    cm, cv = stats(p, (x * np.roll(x, c, axis=1)).mean(axis=ax))
                    want["%s_corr_L%d" % (n, c)] = [cm - m ** 2, cv, err * np.sqrt(cv)]
        got = outs[0][i][0]
        expect(list(got) == list(want), "names", "measurement %d: names %s, expected %s" % (i, list(got), list(want)))
        for n in want:
            for k, x in zip(("mean", "variance", "MC_error"), want[n]):
                same_bits([q[i][0][n][k] for q in outs], "measurement %d: %s of %s" % (i, k, n))
                sc = max(1.0, np.max(np.abs(x)))
                close(got[n][k], x, "measurement %d: %s of %s (%s)" % (i, k, n, scn["sampler"]), rtol=1e-8, atol=2e-6 if k == "MC_error" else 1e-9, scale=sc)
                expect(not np.iscomplexobj(got[n][k]), "complex", "measurement %d: %s of %s is complex" % (i, k, n))
                sm.note(got[n][k])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1
