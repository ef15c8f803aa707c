"""C08 MinSR: the update is that of the concatenation of all samples."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (40, 240), "thorough": (4000, 1500)}
RULE = ("R ranks x D devices, network x sampler (exact, Markov chains, direct; unequal shares), tolerance of the pseudo-inverse changed "
        "between 1-3 calls at different parameters and times; non-trivial: more than one rank or device")
ORACLE = ("serial numpy update from the concatenated samples; checked both as -G^+ pinv(G G^+) e and against the least-squares solution "
          "when no singular value is cut; results that a perturbation of 1e-11 changes visibly are not compared; bit-equality across ranks")
ASSUMPTIONS = ["samples are taken as drawn (their distribution is C06)"]


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({} if th else {"sizes": (1, 2, 3, 4), "ndevs": (1, 2)}))
    scn["sampler"] = rng.choice(["exact", "mc", "mc", "gen"])
    if scn["sampler"] == "gen":
        scn["ansatz"], scn["L"] = rng.choice([("gtable", 3), ("rnn", 2)])
    else:
        scn["ansatz"], scn["L"] = rng.choice([("cpxrbm", 2), ("cpxrbm", 3), ("two", 3), ("rbm", 3)])
    scn["tol"] = rng.choice([1e-14, 1e-10, 1e-6, 1e-2])
    scn["ham"] = rng.randrange(1 << 30) if th else rng.randrange(4)
    scn["ebatch"] = rng.choice([-1, -1, 3])
    scn["n"] = rng.choice([6, 11])
    scn["batch"] = rng.choice([1000, 1000, 4])
    scn["chains"] = rng.choice([1, 3])
    scn["dev"] = rng.random() < 0.5
    scn["mk"] = rng.choice(["imag", "real"])
    calls = []
    for i in range(rng.choice([1, 2, 3])):
        c = {"th": rng.randrange(1 << 30), "t": rng.choice([0.0, 0.7, 1.3]), "int": 0 if i == 0 else rng.choice([0, 1, None])}
        if i and rng.random() < 0.4:
            c["tol"] = rng.choice([1e-14, 1e-8, 1e-3])
        c["n"] = rng.choice([None, None, 9])
        calls.append(c)
    scn["calls"] = calls
    return scn


def theta(s, n):
    return rs(s).randn(n) * 0.4


def solve(E, G, w, tol):
    sq = np.sqrt(w)
    e = sq * (E - np.sum(w * E))
    g = sq[:, None] * (G - w @ G)
    T = g @ g.conj().T
    ev, V = np.linalg.eigh(T)
    cut = tol * np.abs(ev).max()
    inv = np.where(np.abs(ev) > cut, 1 / np.where(ev == 0, 1, ev), 0)
    return -g.conj().T @ (V @ (inv * (V.conj().T @ e)))


@guarded
def execute(scn, scratch, sm):
    L, shape = scn["L"], (scn["L"],)
    net = ref.refnet(scn["ansatz"], shape)
    terms = ref.gen_terms(rs(scn["ham"]), L, 4, tdep=True)
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=3, batchSize=scn["batch"])
        psi.set_parameters(jnp.array(theta(scn["seed"], net.n)))
        H = ref.build(ctx, terms, L, batch=scn["ebatch"])
        if scn["sampler"] == "exact":
            sampler = J.sampler.ExactSampler(psi, shape)
        else:
            sampler = J.sampler.MCSampler(psi, shape, 4321, updateProposer=J.sampler.propose_spin_flip, numChains=scn["chains"],
                                          numSamples=scn["n"], thermalizationSweeps=2, sweepSteps=L)
        rec = []
        orig = sampler.sample

        def sample(*a, **k):
            out = orig(*a, **k)
            rec.append([np.array(x) for x in out])
            return out
        sampler.sample = sample
        minsr = J.util.MinSR(sampler, pinvTol=scn["tol"], makeReal=scn["mk"], diagonalizeOnDevice=scn["dev"])
        out = []
        for i, c in enumerate(scn["calls"]):
            if "tol" in c:
                minsr.set_pinv_tol(c["tol"])
            before = np.array(psi.get_parameters())
            kw = {}
            if c["int"] is not None:
                kw["intStep"] = c["int"]
            if c["n"]:
                kw["numSamples"] = c["n"]
            del rec[:]
            u = minsr(jnp.array(theta(c["th"], net.n)), c["t"], psi=psi, hamiltonian=H, **kw)
            same_bits([before, np.array(psi.get_parameters())], "rank %d: parameters before and after call %d" % (ctx.rank, i), "params-changed")
            expect(len(rec) == 1, "sampling", "call %d drew %d samples" % (i, len(rec)))
            out.append({"u": np.array(u), "rec": rec[0], "Em": np.array(minsr.get_energy_mean()), "Ev": np.array(minsr.get_energy_variance())})
        return out
    outs = run_world(w, program, sm)
    tol = scn["tol"]
    mean = var = None
    for i, c in enumerate(scn["calls"]):
        tol = c.get("tol", tol)
        where = "call %d" % i
        conf = ref.all_states([o[i]["rec"][0] for o in outs])
        p = ref.all_states([o[i]["rec"][2] for o in outs])
        close(p.sum(), 1.0, "%s: sum of the weights" % where, rtol=1e-9)
        th = theta(c["th"], net.n)
        lp = net.logpsi(th)
        ids = net.idx(conf)
        E = (ref.dense(terms, L, c["t"]) * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)[ids]
        G = net.grads(th)[ids]
        if c["int"] == 0:
            mean = np.sum(p * E)
            var = np.sum(p * np.abs(E - mean) ** 2)
        want = solve(E, G, p, tol)
        spread = 0.0
        for s in range(3):
            r = rs(scn["seed"] + s)
            Gp = G * (1 + 1e-12 * r.randn(*G.shape)) + 1e-13 * r.randn(*G.shape)
            alt = solve(E * (1 + 1e-12 * r.randn(len(E))), Gp, p, tol * (1 + 1e-3 * r.randn()))
            spread = max(spread, np.abs(alt - want).max())
        o = outs[0][i]
        sc = max(np.abs(want).max(), 1e-6)
        if spread < 1e-6 * sc:
            close(o["u"], want, "%s: update" % where, rtol=1e-7, atol=1e-9 + 1e3 * spread)
            sm.probe("compared_update")
        else:
            expect(o["u"].shape == want.shape, "wrong-shape", "%s: update has shape %s" % (where, o["u"].shape))
            sm.probe("ill_conditioned")
        close(o["Em"], mean.real, "%s: energy" % where, rtol=1e-9, atol=1e-9)
        close(o["Ev"], var, "%s: energy variance" % where, rtol=1e-8, atol=1e-8 * max(1.0, np.abs(E).max() ** 2))
        for k in ("u", "Em", "Ev"):
            same_bits([x[i][k] for x in outs], "%s: %s" % (where, k))
        sm.note(o["u"])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1


def valid(scn):
    return len(scn["calls"]) > 0
