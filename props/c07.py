"""C07 TDVP: the update and its by-products are those of the union of the samples."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (44, 240), "thorough": (4000, 1500)}
RULE = ("R ranks x D devices, network x sampler (exact, Markov chains, direct) x makeReal x right-hand-side prefactor x regularisation x "
        "cross-validation; 1-3 calls at different parameters and times, settings changed in between; non-trivial: more than one rank or device")
ORACLE = ("serial numpy solution of the defining equations on the union of the samples that the sampler handed out (dense operator, "
          "gradients of the bare network); quantities that a perturbation of 1e-11 changes visibly are compared with that slack; bit-equality across ranks")
ASSUMPTIONS = ["samples are taken as drawn (their distribution is C06)"]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, **({} if tier == "thorough" else {"sizes": (1, 2, 3), "ndevs": (1, 2)}))
    scn["sampler"] = rng.choice(["exact", "mc", "mc", "gen"])
    if scn["sampler"] == "gen":
        scn["ansatz"], scn["L"] = rng.choice([("gtable", 3), ("rnn", 2)])
    else:
        scn["ansatz"], scn["L"] = rng.choice([("cpxrbm", 2), ("cpxrbm", 3), ("two", 3), ("rbm", 3), ("table", 3)])
    scn["mk"] = "real" if scn["ansatz"] == "rbm" else rng.choice(["imag", "real"])
    scn["rhs"] = rng.choice([[0, 1], [1, 0], [0, 1], [0.6, -0.8]]) if scn["mk"] == "imag" else rng.choice([[1, 0], [1, 0], [0, 1], [0.6, 0.8]])
    scn["snrTol"] = rng.choice([0, 1, 2, 4])
    if scn["mk"] == "real" and scn["ansatz"] in ("cpxrbm", "gtable", "table") and rng.random() < 0.6:
        scn["snrTol"] = 0          # degenerate spectrum: no basis-dependent regularisation
    scn["pinvTol"] = rng.choice([1e-14, 1e-6, 1e-3, 1e-2])
    scn["pinvCutoff"] = rng.choice([1e-8, 1e-8, 1e-4, 1e-2, 0.1])
    scn["shift"] = rng.choice([0, 0, 0.1, 5.0, 1e-3, 1e-6])
    scn["cv"] = rng.random() < 0.4
    scn["dev"] = rng.random() < 0.6
    scn["ham"] = rng.randrange(1 << 30) if tier == "thorough" else rng.randrange(4)
    scn["nterms"] = 5
    scn["ebatch"] = rng.choice([-1, -1, 3])
    scn["n"] = rng.choice([12, 17])
    scn["batch"] = rng.choice([1000, 1000, 4])
    scn["chains"] = rng.choice([1, 3])
    calls = []
    for i in range(rng.choice([1, 2, 2, 3])):
        c = {"th": rng.randrange(1 << 30), "t": rng.choice([0.0, 0.7, 1.3]), "int": 0 if i == 0 else rng.choice([0, 1, 2, None])}
        if i and rng.random() < 0.3:
            c["shift"] = rng.choice([0, 0.2, 2e-4])
        if i and rng.random() < 0.2:
            c["cv"] = rng.random() < 0.5
        c["n"] = rng.choice([None, None, 9])
        calls.append(c)
    scn["calls"] = calls
    if scn["sampler"] == "exact":
        scn["cv"] = False
        for c in calls:
            c.pop("cv", None)
    return scn


def theta(s, n):
    return rs(s).randn(n) * 0.4


def q(x, mk):
    return x.real if mk == "real" else 0.5 * (x - x.conj())


class Eq:
    """Serial evaluation of the defining formulas."""

    def __init__(self, scn, shift, N):
        self.scn, self.shift, self.N = scn, shift, N
        self.x = complex(*scn["rhs"])
        self.undef = False

    def eq(self, E, G, w):
        mk = self.scn["mk"]
        self.Em = np.sum(w * E)
        self.Ev = np.sum(w * np.abs(E - self.Em) ** 2)
        Gc = G - w @ G
        Ec = E - self.Em
        self.F0 = -self.x * np.einsum("n,nk,n->k", w, Gc.conj(), Ec)
        self.S0 = np.einsum("n,nk,nl->kl", w, Gc.conj(), Gc)
        self.F = q(self.F0, mk)
        S = q(self.S0, mk)
        if self.shift > 1e-10:
            S = S + np.diag(self.shift * np.diag(S))
        self.S = S
        self.rho = q(-self.x * Gc.conj() * Ec[:, None], mk)
        return S, self.F

    def solve(self, E, G, w):
        scn = self.scn
        S, F = self.eq(E, G, w)
        ev, V = np.linalg.eigh(S)
        VtF = V.conj().T @ F
        with np.errstate(all="ignore"):
            r = self.rho @ V.conj()
            var = np.sum(w[:, None] * np.abs(r - w @ r) ** 2, axis=0)
            snr = np.sqrt(np.abs(self.N * np.abs(VtF) ** 2 / var))
            inv = np.where(np.abs(ev / ev[-1]) > 1e-14, 1 / ev, 0)
            res, cut = 1.0, 1e-2
            first = True
            while first or (res > scn["pinvTol"] and cut > scn["pinvCutoff"]):
                first = False
                cut *= 0.8
                reg = 1 / (1 + (max(cut, scn["pinvCutoff"]) / np.abs(ev / ev[-1])) ** 6)
                if scn["sampler"] != "exact":
                    reg = reg / (1 + (scn["snrTol"] / snr) ** 6)
                p = np.where(inv != 0, inv * reg, 0)
                res = np.linalg.norm((p * ev - 1) * VtF) / np.linalg.norm(F)
        self.undef = self.undef or bool(np.any((inv != 0) & (var <= 1e-24 * max(1.0, np.abs(self.rho).max() ** 2))))
        return {"update": np.real(V @ (p * VtF)), "residual": res, "cutoff": max(cut, scn["pinvCutoff"]), "snr": snr, "ev": ev}

    def error(self, u, Ev):
        return abs(1 + np.real(u @ self.S0 @ u - 2 * np.real(u @ self.F0)) / Ev)

    def run(self, E, G, w, halves, cv):
        out = self.solve(E, G, w)
        out.update(S=self.S, F0=self.F0, Em=self.Em, Ev=self.Ev, S0=self.S0)
        Ev = self.Ev
        out["err"] = self.error(out["update"], Ev)
        if cv:
            h1, h2 = halves
            u1 = self.solve(E[h1], G[h1], w[h1] / w[h1].sum())["update"]
            S2, F2 = self.eq(E[h2], G[h2], w[h2] / w[h2].sum())
            e2 = self.error(u1, Ev)
            with np.errstate(all="ignore"):
                out["cv_res"] = np.linalg.norm(S2 @ u1 - F2) / np.linalg.norm(F2) / out["residual"]
                out["cv_err"] = e2 / out["err"]
        return out


@guarded
def execute(scn, scratch, sm):
    L, shape = scn["L"], (scn["L"],)
    net = ref.refnet(scn["ansatz"], shape)
    terms = ref.gen_terms(rs(scn["ham"]), L, scn["nterms"], tdep=True)
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], shape, seed=3, batchSize=scn["batch"])
        psi.set_parameters(jnp.array(theta(scn["seed"], net.n)))
        H = ref.build(ctx, terms, L, batch=scn["ebatch"])
        if scn["sampler"] == "exact":
            sampler = J.sampler.ExactSampler(psi, shape)
        else:
            prop = None if scn["sampler"] == "gen" and scn["n"] == 12 else J.sampler.propose_spin_flip
            sampler = J.sampler.MCSampler(psi, shape, 1234, updateProposer=prop, numChains=scn["chains"],
                                          numSamples=scn["n"], thermalizationSweeps=2, sweepSteps=L)
        rec = []
        orig = sampler.sample

        def sample(*a, **k):
            out = orig(*a, **k)
            rec.append([np.array(x) for x in out])
            return out
        sampler.sample = sample
        tdvp = J.util.tdvp.TDVP(sampler, snrTol=scn["snrTol"], pinvTol=scn["pinvTol"], pinvCutoff=scn["pinvCutoff"], makeReal=scn["mk"],
                                rhsPrefactor=complex(*scn["rhs"]), diagonalShift=scn["shift"], crossValidation=scn["cv"],
                                diagonalizeOnDevice=scn["dev"])
        out = []
        meta = None
        for i, c in enumerate(scn["calls"]):
            if "shift" in c:
                tdvp.set_diagonal_shift(c["shift"])
            if "cv" in c:
                tdvp.set_cross_validation(c["cv"])
            before = np.array(psi.get_parameters())
            kw = {}
            if c["int"] is not None:
                kw["intStep"] = c["int"]
            if c["n"]:
                kw["numSamples"] = c["n"]
            del rec[:]
            th = jnp.array(theta(c["th"], net.n))
            u = tdvp(th, c["t"], psi=psi, hamiltonian=H, **kw)
            same_bits([before, np.array(psi.get_parameters())], "rank %d: parameters before and after call %d" % (ctx.rank, i), "params-changed")
            expect(len(rec) == 1, "sampling", "call %d drew %d samples" % (i, len(rec)))
            if c["int"] == 0:
                md = tdvp.get_metadata()
                meta = {k: np.array(v) for k, v in md.items()}
                e, r = tdvp.get_residuals()
                same_bits([meta["tdvp_error"], np.array(e)], "get_residuals", "metadata")
                same_bits([meta["tdvp_residual"], np.array(r)], "get_residuals", "metadata")
                same_bits([meta["SNR"], np.array(tdvp.get_snr())], "get_snr", "metadata")
                same_bits([meta["spectrum"], np.array(tdvp.get_spectrum())], "get_spectrum", "metadata")
                meta["Em"] = np.array(tdvp.get_energy_mean())
                meta["Ev"] = np.array(tdvp.get_energy_variance())
            else:
                for k, v in tdvp.get_metadata().items():
                    same_bits([meta[k], np.array(v)], "metadata %s after a call that is not the first of a step" % k, "metadata")
                same_bits([meta["Em"], np.array(tdvp.get_energy_mean())], "energy after a call that is not the first of a step", "metadata")
                same_bits([meta["Ev"], np.array(tdvp.get_energy_variance())], "energy variance after a call that is not the first of a step", "metadata")
            out.append({"u": np.array(u), "rec": rec[0], "meta": dict(meta), "S": np.array(tdvp.get_S()), "Sdot": np.array(tdvp.S_dot(jnp.array(u))) ,
                        "N": None if scn["sampler"] == "exact" else int(sampler.get_last_number_of_samples())})
        return out
    outs = run_world(w, program, sm)
    shift, cv = scn["shift"], scn["cv"]
    for i, c in enumerate(scn["calls"]):
        shift = c.get("shift", shift)
        cv = c.get("cv", cv)
        where = "call %d" % i
        conf = ref.all_states([o[i]["rec"][0] for o in outs])
        p = ref.all_states([o[i]["rec"][2] for o in outs])
        N = len(conf)
        if scn["sampler"] == "exact":
            N = 2 ** L
        else:
            n = c["n"] or scn["n"]
            unit = scn["size"] * scn["ndev"] * scn["chains"]
            expect(n <= N < n + max(unit, 1), "accounting", "%s: %d samples requested (multiples of up to %d), %d drawn" % (where, n, unit, N))
        # even / odd members of every device's batch
        par = np.concatenate([np.tile(np.arange(o[i]["rec"][0].shape[1]) % 2, o[i]["rec"][0].shape[0]) for o in outs])
        halves = (np.where(par == 0)[0], np.where(par == 1)[0])
        th = theta(c["th"], net.n)
        lp = net.logpsi(th)
        ids = net.idx(conf)
        H = ref.dense(terms, L, c["t"])
        E = (H * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)[ids]
        G = net.grads(th)[ids]
        eq = Eq(scn, shift, N)
        cv_now = cv and c["int"] == 0 and min(len(h) for h in halves) > 0 and p[halves[0]].sum() > 0 and p[halves[1]].sum() > 0
        want = eq.run(E, G, p, halves, cv_now)
        alts = []
        for s in range(2):
            r = rs(scn["seed"] + s)
            Ep = E * (1 + 1e-11 * r.randn(len(E)))
            Gp = G * (1 + 1e-11 * (r.randn(*G.shape))) + 1e-12 * r.randn(*G.shape)
            alts.append(eq.run(Ep, Gp, p, halves, cv_now))

        def cmp(got, key, what):
            got, a = np.asarray(got), np.asarray(want[key])
            expect(got.shape == a.shape, "wrong-shape", "%s: %s has shape %s, expected %s" % (where, what, got.shape, a.shape))
            spread = np.zeros(a.shape)
            for alt in alts:
                d = np.abs(np.asarray(alt[key]) - a)
                spread = np.maximum(spread, np.where(np.isnan(d), np.inf, d))
            sc = np.max(np.abs(a[np.isfinite(a)])) if np.any(np.isfinite(a)) else 1.0
            if key in ("update", "residual", "cutoff", "err", "cv_res", "cv_err"):
                spread = np.full(a.shape, spread.max())
            tol = 1e-9 * max(sc, 1e-3) + 300 * spread
            if key == "snr":
                tol = 1e-6 * np.abs(a) + 1e-9 + 300 * spread
            ok = (np.abs(got - a) <= tol) | ~np.isfinite(tol) | ((spread > 1e-6 * max(sc, 1e-3)) & (key != "update"))
            if key == "update" and not spread.max() <= 1e-5 * max(sc, 1e-6):
                sm.probe("ill_conditioned")
                return
            if not np.all(ok):
                j = int(np.argmin(ok.ravel()))
                raise Violation("wrong-value", "%s: %s is %r, expected %r at %d (spread %.2g)" % (
                    where, what, got.ravel()[j].item(), a.ravel()[j].item(), j, float(spread.ravel()[j])))
            sm.probe("compared_" + key)
        for r, o in enumerate(outs):
            o = o[i]
            if o["N"] is not None:
                expect(o["N"] == N, "accounting", "%s: %d samples, %d reported" % (where, N, o["N"]))
        o = outs[0][i]
        close(o["S"], want["S"], "%s: metric tensor" % where, rtol=1e-8, atol=1e-10)
        if eq.undef and not np.all(np.isfinite(o["u"])):
            sm.probe("undefined_update")       # 0/0 in the signal-to-noise ratio of a direction without signal and noise
            continue
        close(o["Sdot"], want["S0"] @ o["u"], "%s: metric tensor times vector" % where, rtol=1e-8, atol=1e-10)
        if c["int"] == 0:
            m = o["meta"]
            close(m["Em"], want["Em"].real, "%s: energy" % where, rtol=1e-9, atol=1e-9)
            close(m["Ev"], want["Ev"], "%s: energy variance" % where, rtol=1e-8, atol=1e-8 * max(1.0, np.abs(E).max() ** 2))
            cmp(m["spectrum"], "ev", "spectrum")
            if scn["sampler"] != "exact":
                cmp(m["SNR"], "snr", "signal-to-noise ratios")
            cmp(m["tdvp_residual"], "residual", "residual")
            cmp(m["pinv_cutoff"], "cutoff", "cutoff")
            if want["Ev"] > 1e-8:
                cmp(m["tdvp_error"], "err", "TDVP error")
            expect(("tdvp_residual_cross_validation_ratio" in m) == bool(cv), "metadata", "%s: cross-validation entries" % where)
            if cv_now and want["Ev"] > 1e-8:
                cmp(m["tdvp_residual_cross_validation_ratio"], "cv_res", "cross-validation of the residual")
                cmp(m["tdvp_error_cross_validation_ratio"], "cv_err", "cross-validation of the error")
        cmp(o["u"], "update", "update")
        for k in ("u", "S"):
            same_bits([x[i][k] for x in outs], "%s: %s" % (where, k))
        for k in outs[0][i]["meta"]:
            same_bits([x[i]["meta"][k] for x in outs], "%s: metadata %s" % (where, k))
        sm.note(o["u"])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1


def valid(scn):
    return len(scn["calls"]) > 0
