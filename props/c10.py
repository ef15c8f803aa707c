"""C10 operators give the exact local values for any batching and distribution."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (72, 240), "thorough": (5000, 1500)}
RULE = ("R ranks x D devices; operators drawn from spin, fermionic, general (local dimension 3), two-dimensional, POVM, user-defined terms "
        "with constant and time-dependent prefactors, 1-8 or 50-70 of them, two operators sharing terms; networks giving amplitudes or their logarithms; a history of 4-7 calls: local "
        "values for different numbers of samples per rank, connected states, estimator functions, with changes of batch size, time, number "
        "of arguments, parameters and terms in between, and failing device computations with retry; non-trivial: more than one rank or device")
ORACLE = "row sums of the dense operator (numpy) with the bare network's amplitudes at every configuration"

KINDS = ["spin", "many", "fermi", "gen3", "povm", "spin2d", "custom", "many", "povm2d"]
SHAPES = {"spin": ([3], 2), "many": ([3], 2), "fermi": ([4], 2), "gen3": ([2], 3), "povm": ([3], 4), "spin2d": ([2, 2], 2), "custom": ([3], 2),
          "povm2d": ([2, 2], 4)}
PNAMES = {1: ["X", "Y", "Z", "decayup", "decaydown", "dephasing", "imx"], 2: ["XX", "YY", "ZZ", "XZ", "hop"], 3: ["XYZ"]}


def gen_povm_terms(r, L, n):
    out = []
    for _ in range(n):
        k = r.randint(1, 3)
        if r.rand() < 0.12:
            k = 3
        sites = [int(x) for x in r.permutation(L)[:k]]
        if k == 2 and r.rand() < 0.5:
            sites = [0, 1 + r.randint(L - 1)]
        out.append({"name": PNAMES[k][r.randint(len(PNAMES[k]))], "strength": float(np.round(r.randn(), 3)), "sites": sites})
    return out


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({} if th else {"sizes": (1, 2, 3), "ndevs": (1, 2)}))
    kind = scn["kind"] = KINDS[idx % len(KINDS)] if rng.random() < 0.8 else rng.choice(KINDS)
    shape, lDim = SHAPES[kind]
    L = int(np.prod(shape))
    r = rs(rng.randrange(1 << 30) if th else rng.randrange(4))
    scn["tdep"] = rng.random() < 0.6
    n = int(r.choice([1, 2, 4, 7]))
    if r.rand() < 0.3 and kind != "custom":
        n = 80 if kind == "gen3" else 24
    if kind == "many":
        n = int(r.choice([50, 51, 53, 57, 64]))
        scn["terms"] = ref.gen_terms(r, L, n, tdep=scn["tdep"], maxlen=2, plain=r.choice([0.0, 0.1]), scale=0.3)
        # at least 50 with prefactors, interspersed with some without
        k = 0
        while sum(bool(t["pref"]) for t in scn["terms"]) < 50:
            if not scn["terms"][k]["pref"]:
                scn["terms"][k]["pref"] = [["c", [0.5, 0.0]]]
            k += 1
        # terms without prefactor at any position, so that the positions of prefactors and terms differ
        for t in ref.gen_terms(r, L, int(r.randint(0, 4)), tdep=False, maxlen=2, plain=1.0):
            scn["terms"].insert(int(r.choice([0, 1, r.randint(0, n)])), t)
    elif kind in ("povm", "povm2d"):
        scn["terms"] = gen_povm_terms(r, L, n + 2)
    elif kind == "fermi":
        scn["terms"] = ref.gen_terms(r, L, n, tdep=scn["tdep"], names=ref.FERMI if r.rand() < 0.7 else ref.FERMI + ["Sz", "Id"])
    elif kind == "custom":
        scn["terms"] = ref.gen_terms(r, L, n, tdep=False, maxlen=2, plain=1.0)
    else:
        scn["terms"] = ref.gen_terms(r, L, n, tdep=scn["tdep"], lDim=lDim)
    scn["extra"] = (gen_povm_terms(r, L, 2) if kind in ("povm", "povm2d") else
                    ref.gen_terms(r, L, 2, tdep=False, lDim=lDim, names=ref.FERMI if kind == "fermi" else None, plain=1.0 if kind == "custom" else 0.3))
    scn["sub"] = sorted(rng.sample(range(len(scn["terms"])), min(len(scn["terms"]), rng.choice([1, 2]))))
    scn["style"] = rng.randrange(12)
    scn["batch"] = rng.choice([-1, 1, 2, 3, 4])
    scn["psi_batch"] = rng.choice([2, 1000])
    ops = []
    # the first call always computes local values with different numbers of samples
    for i in range(rng.randrange(4, 8)):
        k = "eval" if i == 0 else rng.choice(["eval", "eval", "eval", "sprimes", "est", "batch", "add", "add", "params"])
        o = {"op": k, "which": 0 if i == 0 else int(rng.random() < 0.25), "s": rng.randrange(1 << 30)}
        if k in ("eval", "sprimes", "est"):
            o["t"] = rng.choice([0.0, 0.7, 0.700001, -1.3])
            o["w"] = rng.choice([0.5, 1.1, -0.4])
            if kind == "custom":
                o["nargs"] = 1
            elif scn["tdep"]:
                o["nargs"] = rng.choice([1, 1, 1, 2, 2, 0])
            else:
                o["nargs"] = rng.choice([0, 0, 1, 2])
            o["b"] = [rng.choice([1, 2, 3, 5, 7, 8]) for _ in range(4)] if th else [rng.choice([1, 4, 5] if rng.random() < 0.93 else [23]) for _ in range(4)]
            o["given"] = rng.random() < 0.5
        if k == "batch":
            o["batch"] = rng.choice([-1, 1, 2, 3, 4])
        ops.append(o)
        if k in ("add", "params"):
            ops.append({"op": "eval", "which": o["which"], "s": rng.randrange(1 << 30), "t": ops[0]["t"], "w": ops[0]["w"], "nargs": ops[0]["nargs"], "b": ops[0]["b"],
                        "given": rng.random() < 0.5})
    scn["ops"] = ops
    if rng.random() < 0.3:
        c = [i for i, o in enumerate(ops) if o["op"] == "eval"]
        scn["faults"].append({"seam": "device", "phase": "op%d" % rng.choice(c), "k": rng.choice([0, 1, 2, 3]), "what": rng.choice(["oom", "interrupt"])})
    elif kind in ("many", "gen3") and rng.random() < 0.6:
        # prefactors of many terms are evaluated by all processes together
        c = [i for i, o in enumerate(ops) if o["op"] == "eval"]
        scn["faults"].append({"seam": "collective", "phase": "op%d" % rng.choice(c), "k": 0, "what": rng.choice(["mpierr", "interrupt"])})
    scn["plain"] = rng.random() < 0.25
    return scn


def dense(kind, terms, L, t, povm, w=0.5):
    if kind not in ("povm", "povm2d"):
        return ref.dense(terms, L, t, lDim=3 if kind == "gen3" else 2, w=w)
    st = ref.basis(4, (L,))
    N = len(st)
    H = np.zeros((N, N), dtype=complex)
    for term in terms:
        k = len(term["sites"])
        M = term["strength"] * povm[term["name"]]
        cols = ref.basis(4, (k,))
        row = ref.to_index(st[:, term["sites"]], 4, (k,))
        for j, c in enumerate(cols):
            to = st.copy()
            to[:, term["sites"]] = c
            np.add.at(H, (np.arange(N), ref.to_index(to, 4, (L,))), M[row, j])
    return H


_POVM = {}


def povm_ref():
    """Superoperators by direct evaluation of the defining traces."""
    if _POVM:
        return _POVM
    s = np.array([[0, 0, 1], [2 * np.sqrt(2) / 3, 0, -1 / 3], [-np.sqrt(2) / 3, np.sqrt(2 / 3), -1 / 3], [-np.sqrt(2) / 3, -np.sqrt(2 / 3), -1 / 3]])
    pl = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    M1 = np.array([(np.eye(2) + sum(s[a, k] * pl[k] for k in range(3))) / 4 for a in range(4)])
    M2 = np.array([np.kron(a, b) for a in M1 for b in M1])

    def sup(A, M, kind):
        n = len(M)
        T = np.array([[np.trace(M[a] @ M[b]) for b in range(n)] for a in range(n)]).real
        dual = np.einsum("bc,cij->bij", np.linalg.inv(T), M)      # rho = sum_b P_b dual_b
        out = np.zeros((n, n))
        for b in range(n):
            R = dual[b]
            Ad = A.conj().T
            if kind == "uni":
                d = -1j * (A @ R - R @ A)
            elif kind == "dis":
                d = A @ R @ Ad - 0.5 * (Ad @ A @ R + R @ Ad @ A)
            else:
                d = -(A @ R + R @ A)
            for a in range(n):
                out[a, b] = np.trace(d @ M[a]).real
        return out
    for k, n in enumerate("XYZ"):
        _POVM[n] = sup(pl[k], M1, "uni")
        _POVM[n + n] = sup(np.kron(pl[k], pl[k]), M2, "uni")
    M3 = np.array([np.kron(a, b) for a in M2 for b in M1])
    # user-defined ones, not symmetric under exchange of sites
    _POVM["XZ"] = sup(np.kron(pl[0], pl[2]), M2, "uni")
    _POVM["hop"] = sup(np.kron((pl[0] + 1j * pl[1]) / 2, (pl[0] - 1j * pl[1]) / 2), M2, "dis")
    _POVM["XYZ"] = sup(np.kron(np.kron(pl[0], pl[1]), pl[2]), M3, "uni")
    _POVM["decayup"] = sup((pl[0] + 1j * pl[1]) / 2, M1, "dis")
    _POVM["decaydown"] = sup((pl[0] - 1j * pl[1]) / 2, M1, "dis")
    _POVM["dephasing"] = sup(pl[2], M1, "dis")
    _POVM["imx"] = sup(pl[0], M1, "ima")
    return _POVM


def make_ops(ctx, scn, L):
    """-> [first operator, second operator built from shared terms], adder"""
    J = ctx.jVMC
    kind = scn["kind"]
    if kind in ("povm", "povm2d"):
        from importlib import import_module
        P = import_module("jVMC.operator.povm")
        povm = P.POVM({"dim": "1D" if kind == "povm" else "2D", "L": L if kind == "povm" else 2})
        povm.add_imaginary("imx", P.matrix_to_povm(P.get_paulis()[0], povm.M, povm.T_inv, mode="imag"))
        import jax.numpy as jnp
        for nm in ("XZ", "XYZ"):
            povm.add_unitary(nm, jnp.array(povm_ref()[nm]))
        povm.add_dissipator("hop", jnp.array(povm_ref()["hop"]))
        ops = [P.POVMOperator(povm, ElocBatchSize=scn["batch"]), P.POVMOperator(povm)]

        def make(t, k):
            return {"name": t["name"], "strength": t["strength"], "sites": tuple(t["sites"])}
    elif kind == "custom":
        import jax.numpy as jnp

        class Mine(J.operator.Operator):
            """User-defined: time multiplies everything; one or two functions returned."""

            def __init__(self, **kw):
                self.terms = []
                super().__init__(**kw)

            def add(self, t):
                self.terms.append(t)
                self.compiled = False

            def compile(self):
                terms = list(self.terms)

                def fun(s, x):
                    sps, mes = [], []
                    for t in terms:
                        c, a = s, (1.0 + x) + 0j
                        for o in t["ops"][::-1]:
                            mp, me, _, _ = ref.site_op(o)
                            a = a * jnp.array(me, dtype=complex)[c[o[1]]]
                            c = c.at[o[1]].set(jnp.array(mp, dtype=s.dtype)[c[o[1]]])
                        sps.append(c)
                        mes.append(a)
                    return jnp.array(sps), jnp.array(mes)
                if scn["style"] % 2:
                    return (lambda s, x: fun(s, x - 1.0)), (lambda x: (x + 1.0,))
                return fun
        ops = [Mine(ElocBatchSize=scn["batch"]), Mine()]

        def make(t, k):
            return t
    else:
        lDim = SHAPES[kind][1]
        ops = [J.operator.BranchFreeOperator(lDim=lDim, ElocBatchSize=scn["batch"]), J.operator.BranchFreeOperator(lDim=lDim)]

        def make(t, k):
            return ref.op_string(J, t, scn["style"] + k)
    objs = [make(t, k) for k, t in enumerate(scn["terms"])]
    for k, o in enumerate(objs):
        if k % 2 and kind not in ("povm", "povm2d", "custom"):
            ops[0] += o
        else:
            ops[0].add(o)
    for i in scn["sub"]:
        ops[1].add(objs[i])
    return ops, make


@guarded
def execute(scn, scratch, sm):
    kind = scn["kind"]
    shape, lDim = SHAPES[kind]
    L = int(np.prod(shape))
    ansatz = "rtable" if kind in ("povm", "povm2d") else "table"
    net = ref.refnet(ansatz, tuple(shape), lDim)
    povm = povm_ref() if kind in ("povm", "povm2d") else None
    w = make_world(scn)

    def program(ctx):
        import jax
        import jax.numpy as jnp
        psi = ref.make_psi(ctx, ("p" if scn["plain"] else "") + ansatz, tuple(shape), seed=3, lDim=lDim, batchSize=scn["psi_batch"])
        cur = rs(scn["seed"]).randn(net.n) * 0.4
        psi.set_parameters(jnp.array(cur))
        ops, make = make_ops(ctx, scn, L)
        terms = [list(scn["terms"]), [scn["terms"][i] for i in scn["sub"]]]
        nextra = 0
        res = []
        for i, o in enumerate(scn["ops"]):
            k = o["which"]
            op = ops[k]
            where = "rank %d, call %d (%s, operator %d, batch size %d)" % (ctx.rank, i, kind, k, op.ElocBatchSize)
            if o["op"] == "batch":
                op.ElocBatchSize = o["batch"]
                continue
            if o["op"] == "params":
                cur = rs(o["s"]).randn(net.n) * 0.4
                psi.set_parameters(jnp.array(cur))
                continue
            if o["op"] == "add":
                t = scn["extra"][nextra % 2]
                nextra += 1
                if o["s"] % 2 and kind not in ("povm", "povm2d", "custom"):
                    op += make(t, i)
                    expect(op is ops[k], "identity", "%s: adding a term returned another operator" % where)
                else:
                    op.add(make(t, i))
                terms[k].append(t)
                continue
            na = o["nargs"]
            H = dense(kind, terms[k], L, o["t"] if na else ref.T0, povm, w=o["w"] if na > 1 else ref.W0)
            if kind == "custom":
                H = H * (1 + o["t"])
            lp = net.logpsi(cur)
            st = net.states[rs(o["s"] + 13 * ctx.rank).randint(0, len(net.states), (ctx.ndev, o["b"][ctx.rank % 4]))]
            s = jnp.array(st, dtype=np.int32)
            ids = net.idx(st).reshape(st.shape[:2])
            args = (o["t"], o["w"])[:na]
            want = (H * np.exp(lp[None, :] - lp[:, None])).sum(axis=1)[ids]
            if o["op"] == "eval":
                logp = psi(s) if o["given"] else None
                if o["given"] and scn["plain"]:
                    logp = jnp.log(logp)
                ctx.phase("op%d" % i)
                try:
                    got = op.get_O_loc(s, psi, logp, *args)
                except (RuntimeError, KeyboardInterrupt) as e:
                    if "imulated" not in str(e):
                        raise
                    ctx.phase("retry")
                    got = op.get_O_loc(s, psi, logp, *args)
                ctx.phase(None)
                close(got, want, "%s: local values" % where, rtol=1e-8, atol=1e-9)
                res.append(np.array(got))
            elif o["op"] == "est":
                f = op.get_estimator_function(psi, *args)
                got = np.array([complex(f(psi.parameters, s[0, j])) for j in range(min(2, s.shape[1]))])
                close(got, want[0, :2], "%s: estimator function" % where, rtol=1e-8, atol=1e-9)
            else:
                sp, me = op.get_s_primes(s, *args)
                me = np.asarray(me)
                sp = np.asarray(sp)
                expect(sp.shape[:2] == (ctx.ndev, me.shape[1] * me.shape[2]) and sp.shape[2:] == tuple(shape) and me.shape[:2] == ids.shape, "wrong-shape",
                       "%s: connected states of shape %s, matrix elements %s for %s configurations" % (where, sp.shape, me.shape, ids.shape))
                j = net.idx(sp).reshape(me.shape)
                row = np.zeros(ids.shape + (H.shape[0],), dtype=complex)
                for d in range(ids.shape[0]):
                    for b in range(ids.shape[1]):
                        np.add.at(row[d, b], j[d, b], me[d, b])
                close(row, H[ids], "%s: matrix elements" % where, rtol=1e-8, atol=1e-9)
        return res
    outs = run_world(w, program, sm)
    for o in outs:
        for x in o:
            sm.note(x)
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1
