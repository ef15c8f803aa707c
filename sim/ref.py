"""Reference models: bases, dense operators, networks evaluated without the package's
batching / distribution machinery."""

import itertools

import numpy as np

from .world import World, Violation

# ---------------------------------------------------------------- bases


def basis(lDim, shape):
    n = int(np.prod(shape))
    return np.array(list(itertools.product(range(lDim), repeat=n)), dtype=np.int64).reshape((-1,) + tuple(shape))


def index(states, lDim):
    """state(s) -> position in basis()"""
    s = np.asarray(states)
    return s


def to_index(s, lDim, shape):
    s = np.asarray(s).reshape((-1, int(np.prod(shape))))
    out = np.zeros(len(s), dtype=np.int64)
    for k in range(s.shape[1]):
        out = out * lDim + s[:, k]
    return out


# ---------------------------------------------------------------- operators
LOCAL = {
    "Id": ([0, 1], [1, 1], False, True),
    "Sx": ([1, 0], [1, 1], False, False),
    "Sy": ([1, 0], [1j, -1j], False, False),
    "Sz": ([0, 1], [-1, 1], False, True),
    "Sp": ([1, 0], [1, 0], False, False),
    "Sm": ([0, 0], [0, 1], False, False),
    "number": ([0, 1], [0, 1], False, True),
    "creation": ([1, 0], [1, 0], True, False),
    "annihilation": ([1, 0], [0, 1], True, False),
}
SPIN = ["Id", "Sx", "Sy", "Sz", "Sp", "Sm"]
FERMI = ["number", "creation", "annihilation"]


def cj(z):
    return [float(np.real(z)), float(np.imag(z))]


def gen_terms(r, L, n, tdep=False, lDim=2, names=None, maxlen=3, nargs=1, plain=0.3, scale=1.0):
    """r: numpy RandomState.  Terms are JSON-able."""
    terms = []
    for _ in range(n):
        k = r.randint(1, maxlen + 1)
        ops = []
        for _ in range(k):
            if lDim == 2:
                nm = (names or SPIN)[r.randint(len(names or SPIN))]
                ops.append([nm, int(r.randint(L))])
            else:
                if r.rand() < 0.2:
                    ops.append(["gen", int(r.randint(L)), list(range(lDim)), [[1.0, 0.0]] * lDim, True])
                    continue
                diag = bool(r.rand() < 0.4)
                mp = list(range(lDim)) if diag else [int(x) for x in r.permutation(lDim)]
                ops.append(["gen", int(r.randint(L)), mp, [cj(z) for z in r.randn(lDim) + 1j * r.randn(lDim)], diag])
        pref = []
        if r.rand() > plain:
            for _ in range(r.randint(1, 3)):
                v = np.round(r.randn(), 3) + 0.2
                if tdep and r.rand() < 0.7:
                    pref.append(["t", float(v * scale), float(np.round(r.rand() * 3, 3)), float(np.round(r.randn(), 3))])
                else:
                    pref.append(["c", cj(v * scale if r.rand() < 0.6 else v * scale * (1 + 0.5j))])
        terms.append({"ops": ops, "pref": pref})
    return terms


def site_op(o):
    if o[0] == "gen":
        return o[2], [complex(*z) for z in o[3]], False, o[4]
    return LOCAL[o[0]]


def pref_val(pref, t, w=0.5):
    v = 1.0 + 0j
    for p in pref:
        if p[0] == "c":
            v *= complex(*p[1])
        else:
            v *= p[1] * np.cos(p[2] * t) + p[3] + p[1] * (w - W0)
    return v


def dense(terms, L, t=None, lDim=2, w=0.5):
    """O[s, s']: the operators of a string act in turn, the last one first."""
    st = basis(lDim, (L,))
    N = len(st)
    H = np.zeros((N, N), dtype=complex)
    rows = np.arange(N)
    for term in terms:
        cur = st.copy()
        amp = np.full(N, pref_val(term["pref"], t, w), dtype=complex)
        for o in term["ops"][::-1]:
            mp, me, fermi, _ = site_op(o)
            i = o[1]
            if fermi:
                amp = amp * (-1.0) ** cur[:, i + 1:].sum(axis=1)
            amp = amp * np.array(me)[cur[:, i]]
            cur[:, i] = np.array(mp)[cur[:, i]]
        np.add.at(H, (rows, to_index(cur, lDim, (L,))), amp)
    return H


def local_op(J, o):
    import jax.numpy as jnp
    if o[0] == "gen":
        return J.operator.LocalOp(idx=o[1], map=jnp.array(o[2], dtype=np.int32),
                                  matEls=jnp.array([complex(*z) for z in o[3]], dtype=np.complex128), diag=o[4])
    return getattr(J.operator, o[0])(o[1])


T0, W0 = 0.3, 0.5     # default arguments of time-dependent prefactors


def pref_fun(p):
    import jax.numpy as jnp
    if p[0] == "c":
        z = complex(*p[1])
        return z if z.imag else z.real

    def f(t=T0, w=W0):
        return p[1] * jnp.cos(p[2] * t) + p[3] + p[1] * (w - W0)
    return f


def op_string(J, term, style=0):
    ops = [local_op(J, o) for o in term["ops"]]
    if not term["pref"]:
        if style % 2 == 0:
            return tuple(ops) if style % 4 == 0 else J.operator.OpStr(*ops)
        s = ops[0] * J.operator.Id(0, lDim=len(ops[0]["map"]))
        for o in ops[1:]:
            s * o          # products leave their factors alone
            s = s * o
        return s
    fs = [pref_fun(p) for p in term["pref"]]
    if style % 3 == 0:
        s = tuple(ops)
        for f in fs:
            J.operator.scal_opstr(f, s)
            s = J.operator.scal_opstr(f, s)
        return s
    if style % 3 == 1:
        return J.operator.OpStr(*fs, *ops)
    s = J.operator.OpStr(*ops)
    for f in fs:
        f * s
        s = f * s
    return s


def build(ctx, terms, L, batch=-1, lDim=2, style=0):
    op = ctx.jVMC.operator.BranchFreeOperator(lDim=lDim, ElocBatchSize=batch)
    for k, t in enumerate(terms):
        if (style + k) % 2:
            op += op_string(ctx.jVMC, t, style + k)
        else:
            op.add(op_string(ctx.jVMC, t, style + k))
    return op


# ---------------------------------------------------------------- networks
_TABLE = {}


def table_classes():
    """User-defined networks: the logarithmic amplitude of every basis state is a parameter."""
    if _TABLE:
        return _TABLE
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    def idx_of(s, lDim):
        s = s.ravel()
        w = jnp.array([lDim ** (s.shape[0] - 1 - k) for k in range(s.shape[0])])
        return jnp.sum(s * w)

    class Table(nn.Module):
        num: int = 4
        lDim: int = 2
        real: bool = False
        plain: bool = False     # amplitudes instead of their logarithms

        @nn.compact
        def __call__(self, s):
            re = self.param("a_re", nn.initializers.normal(0.3, dtype=jnp.float64), (self.num,), jnp.float64)
            im = self.param("b_im", nn.initializers.normal(0.3, dtype=jnp.float64), (self.num,), jnp.float64)
            i = idx_of(s, self.lDim).astype(int)
            out = re[i] + (0 if self.real else 1j * im[i])
            return jnp.exp(out) if self.plain else out

    class GTable(nn.Module):
        """Directly sampled: normalised probabilities exp(re)."""
        num: int = 4
        lDim: int = 2
        L: int = 2
        lpf: float = 0.5

        def setup(self):
            self.re = self.param("a_re", nn.initializers.normal(0.5, dtype=jnp.float64), (self.num,), jnp.float64)
            self.im = self.param("b_im", nn.initializers.normal(0.3, dtype=jnp.float64), (self.num,), jnp.float64)

        def __call__(self, s):
            i = idx_of(s, self.lDim).astype(int)
            return self.lpf * jax.nn.log_softmax(self.re)[i] + 1j * self.im[i]

        def sample(self, n, key):
            k = jax.random.categorical(key, self.re, shape=(n,))
            return jnp.stack([(k // self.lDim ** (self.L - 1 - j)) % self.lDim for j in range(self.L)], axis=-1)

    class Flat(nn.Module):
        """Directly sampled, uniform over long rows: used to compare random streams."""
        L: int = 40

        @nn.compact
        def __call__(self, s):
            a = self.param("a", nn.initializers.zeros, (1,), jnp.float64)
            return -0.5 * jnp.log(2.0) * s.size + 1j * a[0] * jnp.sum(s)

        def sample(self, n, key):
            return jax.random.bernoulli(key, 0.5, (n, self.L)).astype(jnp.int32)

    class Level(nn.Module):
        """|psi| falls by a constant factor with the value of the first site."""

        @nn.compact
        def __call__(self, s):
            a = self.param("a", nn.initializers.zeros, (1,), jnp.float64)
            return -0.5 * jnp.log(2.0) * s.ravel()[0] + 1j * a[0]

    class Const(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", nn.initializers.zeros, (1,), jnp.float64)
            return 0.0 * jnp.sum(s) + 1j * a[0]

    class NonHolo(nn.Module):
        """Complex parameters, not holomorphic."""

        @nn.compact
        def __call__(self, s):
            x = 2 * s.ravel() - 1

            def ini(k, sh):
                a, b = jax.random.split(k)
                return 0.3 * (jax.random.normal(a, sh) + 1j * jax.random.normal(b, sh))
            c = self.param("c", ini, (x.shape[0],))
            d = self.param("d", ini, (2, x.shape[0]))
            return jnp.sum(jnp.log(jnp.cosh(d @ x))) + jnp.sum(jnp.abs(c) ** 2 * x) + 1j * jnp.sum(jnp.real(c) * x)

    _TABLE.update(NonHolo=NonHolo, Table=Table, GTable=GTable, Flat=Flat, Level=Level, Const=Const)
    return _TABLE


def make_net(J, ansatz, shape, lDim=2):
    """-> (net, extra NQS arguments)"""
    L = int(np.prod(shape))
    if ansatz == "cpxrbm":
        return J.nets.CpxRBM(numHidden=2, bias=True), {}
    if ansatz == "rbm":
        return J.nets.RBM(numHidden=2, bias=True), {}
    if ansatz == "ffn":
        return J.nets.FFN(layers=(3,), bias=True), {}
    if ansatz == "relu":
        import flax.linen as nn
        return J.nets.FFN(layers=(3,), bias=True, actFun=(nn.relu,)), {}
    if ansatz == "nonholo":
        return table_classes()["NonHolo"](), {}
    if ansatz == "two":
        return (J.nets.RBM(numHidden=2, bias=True), J.nets.FFN(layers=(2,), bias=True)), {}
    if ansatz == "cnn":
        return J.nets.CNN(F=(2,), channels=(2,), strides=(1,)), {}
    if ansatz == "cpxcnn":
        return J.nets.CpxCNN(F=(2,), channels=(2,), strides=(1,)), {}
    if ansatz == "sym":
        return J.nets.CpxRBM(numHidden=2, bias=True), {"orbit": J.util.symmetries.get_orbit_1D(L, "translation", "reflection")}
    if ansatz == "symtwo":
        return (J.nets.FFN(layers=(2,), bias=True), J.nets.FFN(layers=(2,), bias=True)), {
            "orbit": J.util.symmetries.get_orbit_1D(L, "translation")}
    if ansatz == "rnn":
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim), {}
    if ansatz == "rnn1":       # POVM style
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim, logProbFactor=1.0, realValuedOutput=True), {}
    if ansatz == "symrnn":
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim, realValuedOutput=True), {
            "orbit": J.util.symmetries.get_orbit_1D(L, "translation", "reflection"),
            "avgFun": J.nets.sym_wrapper.avgFun_Coefficients_Sep}
    if ansatz in ("gru", "lstm"):
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim, cell=ansatz.upper()), {}
    if ansatz == "rnndeep":
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=2, inputDim=lDim), {}
    if ansatz == "cpxrnn":
        return J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim, realValuedParams=False), {}
    if ansatz in ("rnn2d", "rnn2dlstm"):
        return J.nets.RNN2DGeneral(L=shape[0], hiddenSize=2, depth=1, inputDim=lDim, cell="LSTM" if "lstm" in ansatz else "RNN"), {}
    if ansatz == "symrnn2d":
        return J.nets.RNN2DGeneral(L=shape[0], hiddenSize=2, depth=1, inputDim=lDim, realValuedOutput=True), {
            "orbit": J.util.symmetries.get_orbit_2D_square(shape[0], "translation", "rotation", "reflection"),
            "avgFun": J.nets.sym_wrapper.avgFun_Coefficients_Sep}
    if ansatz in ("tworn", "symtworn"):
        kw = {} if ansatz == "tworn" else {"orbit": J.util.symmetries.get_orbit_1D(L, "reflection", "spinflip"),
                                           "avgFun": J.nets.sym_wrapper.avgFun_Coefficients_Sep}
        return (J.nets.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=lDim, realValuedOutput=True), J.nets.FFN(layers=(2,), bias=True)), kw
    if ansatz == "cnn2d":
        return J.nets.CNN(F=(2, 2), channels=(2, 1), strides=(1, 1), periodicBoundary=False), {}
    if ansatz == "cpxcnnsym":
        return J.nets.CpxCNNSym(orbit=J.util.symmetries.get_orbit_1D(L, "reflection"), F=(2,), channels=(2,), strides=(1,)), {}
    if ansatz == "sym2d":
        return J.nets.CpxRBM(numHidden=2, bias=True), {"orbit": J.util.symmetries.get_orbit_2D_square(shape[0], "rotation", "spinflip")}
    if ansatz == "table":
        return table_classes()["Table"](num=lDim ** L, lDim=lDim), {}
    if ansatz == "rtable":
        return table_classes()["Table"](num=lDim ** L, lDim=lDim, real=True), {}
    if ansatz in ("ptable", "prtable"):
        return table_classes()["Table"](num=lDim ** L, lDim=lDim, real=ansatz == "prtable", plain=True), {"logarithmic": False}
    if ansatz == "gtable":
        return table_classes()["GTable"](num=lDim ** L, lDim=lDim, L=L), {}
    if ansatz == "gtable1":
        return table_classes()["GTable"](num=lDim ** L, lDim=lDim, L=L, lpf=1.0), {}
    if ansatz == "flat":
        return table_classes()["Flat"](L=L), {}
    if ansatz == "level":
        return table_classes()["Level"](), {}
    if ansatz == "const":
        return table_classes()["Const"](), {}
    if ansatz in DESCR:
        A, O = J.nets.activation_functions.activationFunctions, J.util.symmetries
        exp, sep = J.nets.sym_wrapper.avgFun_Coefficients_Exp, J.nets.sym_wrapper.avgFun_Coefficients_Sep
        N = J.nets
        if ansatz == "i_ffn":
            return N.FFN(layers=(3, 2), bias=True, actFun=(A["tanh"], A["elu"])), {"orbit": O.get_orbit_1D(L, "translation"), "avgFun": exp}
        if ansatz == "i_cpxcnn":
            return N.CpxCNN(F=(2,), channels=(2,), strides=(1,), actFun=(A["poly6"],)), {
                "orbit": O.get_orbit_1D(L, "reflection", "spinflip", spinflip_factor=0.4), "avgFun": exp}
        if ansatz == "i_rnn":
            return N.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=2, actFun=A["tanh"], realValuedOutput=True), {
                "orbit": O.get_orbit_1D(L, "reflection"), "avgFun": sep}
        if ansatz == "i_two":
            return (N.RBM(numHidden=2, bias=True), N.FFN(layers=(2,), actFun=(A["tanh"],))), {"orbit": O.get_orbit_1D(L, "spinflip"), "avgFun": exp}
        if ansatz == "i_tworn":
            return (N.RNN1DGeneral(L=L, hiddenSize=2, depth=1, inputDim=2, realValuedOutput=True), N.FFN(layers=(2,), actFun=(A["tanh"],))), {
                "orbit": O.get_orbit_1D(L, "spinflip"), "avgFun": sep}
        if ansatz == "i_cnn2d":
            return N.CNN(F=(2, 2), channels=(2,), strides=(1, 1), actFun=(A["elu"],)), {
                "orbit": O.get_orbit_2D_square(shape[0], "rotation", "translation"), "avgFun": exp}
    raise ValueError(ansatz)


# descriptions for init_net; make_net builds the same networks by hand
DESCR = {
    "i_ffn": {"net1": {"type": "FFN", "parameters": {"layers": (3, 2), "bias": True, "actFun": ["tanh", "elu"]}}, "translation": True},
    "i_cpxcnn": {"net1": {"type": "CpxCNN", "parameters": {"F": (2,), "channels": (2,), "strides": (1,), "actFun": ["poly6"]}},
                 "reflection": True, "spinflip": True, "spinflip_factor": 0.4},
    "i_rnn": {"net1": {"type": "RNN", "parameters": {"L": 3, "hiddenSize": 2, "depth": 1, "inputDim": 2, "actFun": "tanh", "realValuedOutput": True}},
              "reflection": True},
    "i_two": {"net1": {"type": "RBM", "parameters": {"numHidden": 2, "bias": True}},
              "net2": {"type": "FFN", "parameters": {"layers": (2,), "actFun": ["tanh"]}}, "spinflip": True},
    "i_tworn": {"net1": {"type": "RNN", "parameters": {"L": 3, "hiddenSize": 2, "depth": 1, "inputDim": 2, "realValuedOutput": True}},
                "net2": {"type": "FFN", "parameters": {"layers": (2,), "actFun": ["tanh"]}}, "spinflip": True},
    "i_cnn2d": {"net1": {"type": "CNN", "parameters": {"F": (2, 2), "channels": (2,), "strides": (1, 1), "actFun": ["elu"]}},
                "rotation": True, "translation": True},
}


def make_psi(ctx, ansatz, shape, seed=0, batchSize=1000, lDim=2, init=True):
    import jax.numpy as jnp
    J = ctx.jVMC
    net, kw = make_net(J, ansatz, shape, lDim)
    psi = J.vqs.NQS(net, batchSize=batchSize, seed=seed, **kw)
    if init:
        psi(jnp.zeros((J.global_defs.device_count(), 1) + tuple(shape), dtype=np.int32))
    return psi


_NETS = {}


class RefNet:
    """logpsi and gradients on the whole basis, from the bare network function."""

    def __init__(self, ansatz, shape, lDim=2):
        import jax
        import jax.numpy as jnp
        self.shape, self.lDim = tuple(shape), lDim
        self.states = basis(lDim, shape)
        w = World(1, 1)

        def program(ctx):
            J = ctx.jVMC
            psi = make_psi(ctx, ansatz, shape, seed=3, lDim=lDim)
            return psi.net, psi.parameters
        w.run(program)
        net, params = w.check_clean()[0]
        leaves, self.tree = jax.tree_util.tree_flatten(params["params"])
        self.shapes = [l.shape for l in leaves]
        self.cpx = bool(np.iscomplexobj(np.asarray(leaves[0])))
        self.n = sum(l.size for l in leaves) * (2 if self.cpx else 1)
        self.params0 = params

        def unflat(th):
            out, k = [], 0
            for sh in self.shapes:
                m = int(np.prod(sh))
                if self.cpx:
                    out.append((th[k:k + m] + 1j * th[k + m:k + 2 * m]).reshape(sh))
                    k += 2 * m
                else:
                    out.append(th[k:k + m].reshape(sh))
                    k += m
            return {**params, "params": jax.tree_util.tree_unflatten(self.tree, out)}
        self.unflat = unflat
        st = jnp.array(self.states)

        def both(th):
            v = jax.vmap(lambda s: net.apply(unflat(th), s))(st)
            return jnp.stack([jnp.real(v), jnp.imag(v)])
        self._f = jax.jit(both)
        self._g = jax.jit(jax.jacrev(both))

    def logpsi(self, th):
        v = np.asarray(self._f(np.asarray(th, dtype=float)))
        return v[0] + 1j * v[1]

    def grads(self, th):
        g = np.asarray(self._g(np.asarray(th, dtype=float)))
        return g[0] + 1j * g[1]

    def idx(self, s):
        return to_index(s, self.lDim, self.shape)


def refnet(ansatz, shape, lDim=2):
    key = (ansatz, tuple(shape), lDim)
    if key not in _NETS:
        if len(_NETS) > 40:
            _NETS.clear()
        _NETS[key] = RefNet(ansatz, shape, lDim)
    return _NETS[key]


def fd_grad(f, th, h=1e-5):
    out = np.zeros(len(th), dtype=np.result_type(f(th), float))
    for k in range(len(th)):
        a, b = th.copy(), th.copy()
        a[k] += h
        b[k] -= h
        out[k] = (f(a) - f(b)) / (2 * h)
    return out


def all_states(parts):
    """[D, B, ...] arrays of all ranks -> concatenated [N, ...] in rank order"""
    return np.concatenate([np.asarray(a).reshape((-1,) + np.asarray(a).shape[2:]) for a in parts])
