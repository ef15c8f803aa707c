"""C01 global reductions: independent of how samples are spread over ranks and devices."""
import numpy as np

from sim.lib import *

TIERS = {"quick": (160, 240), "thorough": (6000, 1500)}
RULE = ("a history of 3-7 reductions (sum / mean / variance / covariance; real, complex, integer, boolean data of single and double width; unequal batches per "
        "rank; device re-selection in between; transient communication failure followed by a retry) on R ranks x D devices; "
        "non-trivial: more than one rank or device took part and a rank had to wait inside a collective")
ORACLE = "serial numpy evaluation of the defining weighted sums on the concatenated data; bit-equality across ranks"
ASSUMPTIONS = ["reduction results are identical on all ranks (as MPI implementations provide)"]


def gen_op(rng):
    kind = rng.choice(["sum", "mean", "variance", "covariance"])
    dt = rng.choice(["f8", "c16", "c16", "f8", "i8", "b1", "i1", "i4", "f4", "c8"] if kind == "sum" else ["f8", "f8", "c16", "c16", "f4", "i4"])
    if kind == "sum":
        shape = rng.choice([[], [2], [3, 2], [1], [2, 2, 2], [17]])
    elif kind == "mean":
        shape = rng.choice([[], [1], [3], [2, 3], [2, 2], [17]])
    elif kind == "variance":
        shape = rng.choice([[1], [3], [2, 2], [4]])
    else:
        shape = rng.choice([[1], [2], [4], [9]])
    return {"op": kind, "dt": dt, "shape": shape, "batch": [rng.choice([40, 129, 257]) if rng.random() < 0.1 else rng.randrange(1, 7) for _ in range(8)],
            "seed": rng.randrange(1 << 30), "offset": rng.choice([0, 0, 1, 100.0]), "zero": rng.random() < 0.25,
            "fail": rng.random() < 0.15}


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4))
    widen(scn, rng)
    ops = [gen_op(rng) for _ in range(rng.randrange(3, 8))]
    if rng.random() < 0.4:
        ops.insert(rng.randrange(1, len(ops)), {"op": "devices", "n": rng.randrange(1, 5), "start": rng.randrange(0, 4)})
    for i, o in enumerate(ops):
        if o.pop("fail", False):
            scn["faults"].append({"seam": "collective", "phase": "op%d" % i, "k": 0, "what": "mpierr"})
    scn["ops"] = ops
    return scn


def data_for(op, rank, ndev, size):
    r = rs(op["seed"] + 977 * rank)
    b = op["batch"][rank % len(op["batch"])]
    shape = (ndev, b) + tuple(op["shape"])
    if op["dt"] == "b1":
        x = r.rand(*shape) < 0.7
    elif op["dt"][0] == "i":
        x = r.randint(-20, 100, shape).astype(op["dt"])
        if op["dt"] == "i8" and op["offset"]:
            x = x * (2 ** 33 + 1)
    elif op["dt"][0] == "f":
        x = (r.randn(*shape) + op["offset"]).astype(op["dt"])
    else:
        x = r.randn(*shape) + 1j * r.randn(*shape) + op["offset"] * (1 - 0.5j)
    x = x.astype(op["dt"])
    p = r.rand(ndev, b) + 0.05
    if op["zero"]:
        p[r.rand(ndev, b) < 0.3] = 0.0
    return x, p


def reference(op, ndev, size):
    xs, ps = zip(*[data_for(op, k, ndev, size) for k in range(size)])
    x = np.concatenate([a.reshape((-1,) + tuple(op["shape"])) for a in xs])
    x = x.astype("c16" if x.dtype.kind == "c" else "i8" if x.dtype.kind in "ib" else "f8")
    p = np.concatenate([a.reshape(-1) for a in ps])
    tot = p.sum()
    if tot == 0:
        return None, None, None
    p = p / tot
    if op["op"] == "sum":
        return x.sum(axis=0), np.abs(x).sum(axis=0).max(), tot
    m = np.tensordot(p, x, axes=(0, 0))
    if op["op"] == "mean":
        return m, np.abs(x).max(), tot
    d = x - m
    if op["op"] == "variance":
        return np.tensordot(p, np.abs(d) ** 2, axes=(0, 0)), (np.abs(x) ** 2).max(), tot
    return np.einsum("k,ki,kj->ij", p, d.conj(), d), (np.abs(x) ** 2).max(), tot


@guarded
def execute(scn, scratch, sm):
    w = make_world(scn)
    import jax
    alldev = jax.devices()

    def program(ctx):
        import jax.numpy as jnp
        J, mpi = ctx.jVMC, ctx.mpi
        nd = ctx.ndev
        out = []
        for i, op in enumerate(scn["ops"]):
            if op["op"] == "devices":
                nd = min(op["n"], 4 - op["start"])
                J.set_pmap_devices(alldev[op["start"]:op["start"] + nd])
                out.append(None)
                continue
            ref, scale, tot = reference(op, nd, scn["size"])
            if ref is None:
                out.append(None)
                continue
            x, p = data_for(op, ctx.rank, nd, ctx.size)
            x, p = jnp.array(x), jnp.array(p / tot)

            def call():
                if op["op"] == "sum":
                    return mpi.global_sum(x)
                return {"mean": mpi.global_mean, "variance": mpi.global_variance,
                        "covariance": mpi.global_covariance}[op["op"]](x, p)
            ctx.phase("op%d" % i)
            try:
                res = call()
            except RuntimeError as e:
                if "simulated communication failure" not in str(e):
                    raise
                ctx.phase("retry")
                res = call()
            ctx.phase(None)
            res = np.array(res)
            close(res, ref, "rank %d: %s of op %d" % (ctx.rank, op["op"], i), rtol=1e-4 if op["dt"] in ("f4", "c8") else 1e-10,
                  atol=1e-13, scale=scale)
            out.append(res)
        return out
    outs = run_world(w, program, sm)
    for i, op in enumerate(scn["ops"]):
        if outs[0][i] is not None:
            same_bits([o[i] for o in outs], "%s (op %d)" % (op["op"], i))
            sm.note(outs[0][i])
    sm.d["nontrivial"] = (scn["size"] * scn["ndev"] > 1) and (scn["size"] == 1 or w.probes.get("waited_in_collective", 0) > 0)


def valid(scn):
    return len(scn["ops"]) > 0
