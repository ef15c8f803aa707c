"""C02 sample statistics: defining weighted sums over the union of all samples."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (72, 240), "thorough": (4000, 1500)}
RULE = ("two observables with common weights (zeros included) on R ranks x D devices with unequal batches, a history of 3-6 derived "
        "objects (covariance data, transform, select, subset) each checked in all statistics it offers, or a parametrised "
        "estimator at several parameters; non-trivial: more than one rank or device")
ORACLE = "serial numpy evaluation of the defining sums on the concatenated samples; finite differences of the exact expectation value; bit-equality across ranks"

FUNS = ["abs2", "shift", "square", "conj", "scale"]


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4))
    if idx % 4 == 3:
        scn["mode"] = "estimator"
        scn["net"] = scn["net"]
        scn["ansatz"] = rng.choice(["cpxrbm", "rbm", "two"])
        scn["L"] = rng.choice([2, 3])
        scn["ham"] = rng.randrange(1 << 30)
        scn["theta"] = [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2]))]
        scn["size"] = min(scn["size"], 3)
        return scn
    scn["mode"] = "stats"
    scn["batch"] = [rng.choice([2, 3, 5] if rng.random() < 0.9 else [40]) for _ in range(4)]
    scn["k"] = [rng.choice([0, 1, 3]), rng.choice([0, 1, 2])]
    scn["dt"] = [rng.choice(["f8", "c16"]), rng.choice(["f8", "c16"])]
    scn["zero"] = rng.choice([0, 0, 0.3, 0.6])
    scn["tiny"] = rng.random() < 0.4
    scn["offset"] = rng.choice([0, 1.0, 30.0])
    ops = []
    n = 2
    for _ in range(rng.randrange(2, 6)):
        o = {"op": rng.choice(["covar_data", "transform", "select", "subset", "subset", "lin"]),
             "a": rng.randrange(n), "b": rng.randrange(n), "f": rng.choice(FUNS), "s": rng.randrange(1 << 30)}
        o["sl"] = rng.choice([[0, None, 2], [1, None, 2], [None, 2, None], [1, None, None], [None, -1, None], [0, 2, 1], [None, None, None]])
        ops.append(o)
        n += 1
    scn["ops"] = ops
    return scn


def obs_data(scn, i, rank):
    r = rs(scn["seed"] + 31 * i + 1009 * rank)
    b = scn["batch"][rank]
    shape = (scn["ndev"], b) + ((scn["k"][i],) if scn["k"][i] else ())
    x = r.randn(*shape) + scn["offset"] * (i + 1)
    if scn["dt"][i] == "c16":
        x = x + 1j * r.randn(*shape)
    return x


def all_weights(scn):
    ws = []
    for k in range(scn["size"]):
        r = rs(scn["seed"] + 7 + 1013 * k)
        w = r.rand(scn["ndev"], scn["batch"][k]) + 0.05
        if scn["zero"]:
            w[r.rand(*w.shape) < scn["zero"]] = 0.0
        if scn.get("tiny"):
            q = r.rand(*w.shape) < 0.5
            w[q] *= 10.0 ** -r.randint(3, 13, w.shape)[q]
        # no subset may be without weight
        w[0, 0] = 0.3
        w[0, 1] = 0.2
        ws.append(w)
    tot = sum(w.sum() for w in ws)
    return [w / tot for w in ws]


class Ref:
    """per rank [D, B, ...] observations and weights"""

    def __init__(self, X, W):
        self.X = [x[..., None] if x.ndim == 2 else x for x in X]
        self.W = W

    def flat(self):
        return (np.concatenate([x.reshape((-1,) + x.shape[2:]) for x in self.X]),
                np.concatenate([w.reshape(-1) for w in self.W]))

    @property
    def shape(self):
        return self.X[0].shape[2:]

    def mean(self):
        x, w = self.flat()
        return np.tensordot(w, x, axes=(0, 0))

    def cent(self):
        x, w = self.flat()
        return x - self.mean(), w

    def var(self):
        d, w = self.cent()
        return np.tensordot(w, np.abs(d) ** 2, axes=(0, 0))

    def covar(self, o):
        d, w = self.cent()
        e, _ = o.cent()
        return np.einsum("n,ni,nj->ij", w, d.conj(), e)

    def covar_var(self, o):
        d, w = self.cent()
        e, _ = o.cent()
        return np.einsum("n,nij->ij", w, np.abs(d.conj()[:, :, None] * e[:, None, :]) ** 2) - np.abs(self.covar(o)) ** 2

    def kernel(self):
        d, w = self.cent()
        v = np.sqrt(w)[:, None] * d
        return v @ v.conj().T

    def scale(self):
        x, w = self.flat()
        return max(1e-30, np.abs(x).max())


def fun_np(name, s):
    c = 1.3 - 0.4j
    return {"abs2": lambda x: x * x.conj(), "shift": lambda x: x + c, "square": lambda x: x * x, "conj": lambda x: x.conj(),
            "scale": lambda x: c * x}[name]


def run_stats(scn, sm):
    W = all_weights(scn)
    R = scn["size"]
    refs = [Ref([obs_data(scn, i, k) for k in range(R)], W) for i in range(2)]
    plan = []
    for o in scn["ops"]:
        A = refs[o["a"] % len(refs)]
        a = o["a"] % len(refs)
        B, b = refs[o["b"] % len(refs)], o["b"] % len(refs)
        kind = o["op"]
        same = all(np.array_equal(p, q) for p, q in zip(A.W, B.W)) and len(B.shape) == 1
        if kind == "covar_data" and not (len(A.shape) == 1 and same):
            kind = "transform"
        if kind == "select" and len(A.shape) != 1:
            kind = "transform"
        if kind == "covar_data":
            ma, mb = A.mean(), B.mean()
            X = [(x - ma).conj()[..., :, None] * (y - mb)[..., None, :] for x, y in zip(A.X, B.X)]
            X = [np.where((w > 0)[..., None, None], x, 0) for x, w in zip(X, A.W)]
            new = Ref(X, A.W)
            plan.append(("covar_data", a, b))
        elif kind in ("transform", "lin"):
            f = fun_np(o["f"], o["s"])
            if kind == "lin" and len(A.shape) == 2:
                v = rs(o["s"]).randn(A.shape[0] + 1, A.shape[0])
                X = [np.einsum("ij,dbjk->dbik", v, f(x)) for x in A.X]
                plan.append(("lin", a, o["f"], v))
            else:
                X = [f(x) for x in A.X]
                plan.append(("transform", a, o["f"]))
            new = Ref(X, A.W)
        elif kind == "select":
            r = rs(o["s"])
            ix = r.randint(0, A.shape[0], r.randint(1, A.shape[0] + 2))
            new = Ref([x[..., ix] for x in A.X], A.W)
            plan.append(("select", a, ix))
        else:
            sl = slice(*o["sl"])
            X = [x[:, sl] for x in A.X]
            Ws = [w[:, sl] for w in A.W]
            if any(w.shape[1] == 0 for w in Ws) or sum(w.sum() for w in Ws) < 1e-3:
                sl = slice(None)
                X, Ws = A.X, A.W
            tot = sum(w.sum() for w in Ws)
            new = Ref(X, [w / tot for w in Ws])
            plan.append(("subset", a, (sl.start, sl.stop, sl.step)))
        refs.append(new)

    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        S = ctx.jVMC.stats.SampledObs
        pool = [S(jnp.array(obs_data(scn, i, ctx.rank)), jnp.array(W[ctx.rank])) for i in range(2)]
        out = []

        def check(o, rf, name):
            sc = rf.scale()
            res = {"mean": o.mean(), "var": o.var()}
            close(res["mean"], rf.mean(), "rank %d: mean of %s" % (ctx.rank, name), rtol=1e-9, atol=1e-12, scale=sc)
            close(res["var"], rf.var(), "rank %d: variance of %s" % (ctx.rank, name), rtol=1e-9, atol=1e-12, scale=sc ** 2)
            if len(rf.shape) == 1:
                res["covar"] = o.covar()
                close(res["covar"], rf.covar(rf), "rank %d: covariance of %s" % (ctx.rank, name), rtol=1e-9, atol=1e-12, scale=sc ** 2)
                res["covar_var"] = o.covar_var()
                close(res["covar_var"], rf.covar_var(rf), "rank %d: covariance variance of %s" % (ctx.rank, name),
                      rtol=1e-8, atol=1e-12, scale=sc ** 4)
                res["kernel"] = o.tangent_kernel()
                close(res["kernel"], rf.kernel(), "rank %d: tangent kernel of %s" % (ctx.rank, name), rtol=1e-9, atol=1e-12, scale=sc ** 2)
            return {k: np.array(v) for k, v in res.items()}
        for i in range(2):
            out.append(check(pool[i], refs[i], "observable %d" % i))
        close(pool[0].covar(pool[1]), refs[0].covar(refs[1]), "rank %d: cross covariance" % ctx.rank,
              rtol=1e-9, scale=refs[0].scale() * refs[1].scale())
        close(pool[1].covar_var(pool[0]), refs[1].covar_var(refs[0]), "rank %d: variance of the cross covariance" % ctx.rank,
              rtol=1e-8, scale=(refs[0].scale() * refs[1].scale()) ** 2)
        for n, pl in enumerate(plan):
            if pl[0] == "covar_data":
                o = pool[pl[1]].covar_data(pool[pl[2]]) if pl[1] != pl[2] else pool[pl[1]].covar_data()
            elif pl[0] == "transform":
                o = pool[pl[1]].transform(nonLinearFun=jfun(pl[2]))
            elif pl[0] == "lin":
                o = pool[pl[1]].transform(nonLinearFun=jfun(pl[2]), linearFun=jnp.array(pl[3]))
            elif pl[0] == "select":
                o = pool[pl[1]].select(jnp.array(pl[2]))
            else:
                o = pool[pl[1]].subset(start=pl[2][0], end=pl[2][1], step=pl[2][2])
            pool.append(o)
            out.append(check(o, refs[n + 2], "derived object %d (%s of %d)" % (n, pl[0], pl[1])))
        # the objects they were derived from are unchanged
        out.append(check(pool[0], refs[0], "observable 0 at the end"))
        return out
    outs = run_world(w, program, sm)
    for i in range(len(outs[0])):
        for k in outs[0][i]:
            same_bits([o[i][k] for o in outs], "%s of object %d" % (k, i))
            sm.note(outs[0][i][k])
    sm.d["nontrivial"] = R * scn["ndev"] > 1


_J = {}


def jfun(name):
    if name not in _J:
        import jax.numpy as jnp
        c = 1.3 - 0.4j
        _J.update({"abs2": lambda x: x * jnp.conj(x), "shift": lambda x: x + c, "square": lambda x: x * x,
                   "conj": lambda x: jnp.conj(x), "scale": lambda x: c * x})
    return _J[name]


def run_estimator(scn, sm):
    L = scn["L"]
    terms = ref.gen_terms(rs(scn["ham"]), L, 3, tdep=False)
    H = ref.dense(terms, L)
    states = ref.basis(2, (L,))
    ref_psi = ref.refnet(scn["ansatz"], (L,))
    n = ref_psi.n
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], (L,), seed=scn["seed"] % 1000)
        op = ref.build(ctx, terms, L)
        sampler = J.sampler.ExactSampler(psi, (L,))
        out = []
        for s in scn["theta"]:
            th = rs(s).randn(n) * 0.3
            psi.set_parameters(jnp.array(th))
            configs, logp, p = sampler.sample()
            obs = J.stats.SampledObs(configs, p, estimator=op.get_estimator_function(psi))
            m = np.array(obs.mean(psi.parameters)).ravel()

            def expval(t):
                v = np.exp(ref_psi.logpsi(t))
                v = v / np.linalg.norm(v)
                return (v.conj() @ H @ v)
            e = expval(th)
            sc = np.abs(H).max() * len(states)
            close(m, [e], "rank %d: mean of the estimator" % ctx.rank, rtol=1e-8, scale=sc)
            m2, g = obs.mean_and_grad(psi, psi.parameters)
            close(np.array(m2).ravel(), [e], "rank %d: mean with gradient" % ctx.rank, rtol=1e-8, scale=sc)
            fd = ref.fd_grad(expval, th)
            close(np.array(g).ravel(), fd, "rank %d: gradient of the expectation value" % ctx.rank, rtol=1e-5, scale=sc)
            # estimator evaluated at other parameters, samples kept
            th2 = th + 0.1 * rs(s + 1).randn(n)
            psi.set_parameters(jnp.array(th2))
            P2 = psi.parameters
            psi.set_parameters(jnp.array(th))
            v2, v1 = np.exp(ref_psi.logpsi(th2)), np.exp(ref_psi.logpsi(th))
            pr = np.abs(v1) ** 2
            eloc2 = (H @ v2) / v2
            want = (pr / pr.sum()) @ eloc2
            m3 = np.array(obs.mean(P2)).ravel()
            close(m3, [want], "rank %d: mean of the estimator at other parameters" % ctx.rank, rtol=1e-8, scale=np.abs(eloc2).max())
            v = np.array(obs.var()).ravel()
            wv = (pr / pr.sum()) @ np.abs(eloc2 - want) ** 2
            close(v, [wv], "rank %d: variance of the estimator at other parameters" % ctx.rank, rtol=1e-8, scale=np.abs(eloc2).max() ** 2)
            # back and forth between the two parameter sets, in any order of the calls
            P1 = psi.parameters
            wv1 = (pr / pr.sum()) @ np.abs((H @ v1) / v1 - e) ** 2
            sc2 = np.abs((H @ v1) / v1).max() + np.abs(eloc2).max()
            r = rs(s + 2)
            for k in range(4):
                first, grad = r.rand() < 0.5, r.rand() < 0.5
                P, wm, wvar = (P1, e, wv1) if first else (P2, want, wv)
                mm = obs.mean_and_grad(psi, P)[0] if grad else obs.mean(P)
                what = "rank %d: %%s of the estimator, evaluation %d (%s)" % (ctx.rank, k, "first parameters" if first else "second parameters")
                close(np.array(mm).ravel(), [wm], what % "mean", rtol=1e-8, scale=sc2)
                close(np.array(obs.mean()).ravel(), [wm], what % "last mean", rtol=1e-8, scale=sc2)
                close(np.array(obs.var()).ravel(), [wvar], what % "variance", rtol=1e-8, scale=sc2 ** 2)
            fresh = J.stats.SampledObs(configs, p, estimator=op.get_estimator_function(psi), params=P2)
            close(np.array(fresh.mean()).ravel(), [want], "rank %d: mean of an estimator with parameters" % ctx.rank, rtol=1e-8, scale=sc2)
            close(np.array(fresh.covar(obs)).ravel(), [(pr / pr.sum()) @ (np.conj(eloc2 - want) * ((eloc2 - want) if not first else ((H @ v1) / v1 - e)))],
                  "rank %d: covariance of two estimators" % ctx.rank, rtol=1e-8, scale=sc2 ** 2)
            out.append([m, np.array(m2), np.array(g), m3])
        return out
    outs = run_world(w, program, sm)
    for i in range(len(outs[0])):
        for k in range(4):
            same_bits([o[i][k] for o in outs], "estimator statistics")
            sm.note(outs[0][i][k])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1
    sm.probe("estimator_runs")


@guarded
def execute(scn, scratch, sm):
    if scn["mode"] == "estimator":
        run_estimator(scn, sm)
    else:
        run_stats(scn, sm)


def valid(scn):
    return True
