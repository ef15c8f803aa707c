"""C16 broadcast and gather deliver the data unchanged, in process order."""
import numpy as np

from sim.lib import *

TIERS = {"quick": (260, 240), "thorough": (25000, 1200)}
RULE = ("histories of 4-10 broadcasts (any root, any length, special values, strided and device arrays, anything on the other ranks, wrong "
        "types) and gathers (unequal batches, drawn trailing shapes and types) on 1-5 ranks, failing communication with retry; results are "
        "kept and compared again at the end; non-trivial: more than one rank")
ORACLE = "bit-equality with the root's array / the concatenation in rank order; inputs and earlier results unchanged"


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4, 5), ndevs=(1, 2))
    widen(scn, rng, sizes=(6, 7, 8))
    ops = []
    for i in range(rng.randrange(4, 10)):
        if rng.random() < 0.5:
            ops.append({"op": "bcast", "root": rng.randrange(8) if rng.random() < 0.7 else None, "n": rng.choice([0, 1, 2, 7, 64, 1000, 5000, 70000]),
                        "form": rng.choice(["np", "np", "jnp", "stride", "rev", "ro"]), "other": rng.choice(["none", "same", "longer", "shorter", "int", "obj"]),
                        "special": rng.random() < 0.3, "s": rng.randrange(1 << 30),
                        "bad": rng.choice(["f4", "i8", "c16"]) if rng.random() < 0.15 else None})
        else:
            ops.append({"op": "gather", "b": [rng.choice([1, 2, 3, 5] if rng.random() < 0.9 else [40, 300]) for _ in range(8)], "tail": rng.choice([[], [], [1], [3], [2, 2]]),
                        "dt": rng.choice(["f8", "c16", "i4"]), "form": rng.choice(["np", "jnp", "jnp"]), "s": rng.randrange(1 << 30)})
    scn["ops"] = ops
    if rng.random() < 0.2:
        i = rng.randrange(len(ops))
        if not ops[i].get("bad"):
            scn["faults"].append({"seam": "collective", "phase": "op%d" % i, "k": 0, "what": rng.choice(["mpierr", "interrupt"])})
    return scn


def bdata(o):
    x = rs(o["s"]).randn(o["n"]) * 10.0 ** rs(o["s"] + 1).randint(-300, 300, o["n"])
    if o["special"] and o["n"]:
        x[rs(o["s"]).randint(0, o["n"], 1 + o["n"] // 3)] = rs(o["s"]).choice([np.nan, np.inf, -np.inf, -0.0, 5e-324])
    return x


def gdata(o, r, D):
    R = rs(o["s"] + 101 * r)
    sh = (D, o["b"][r]) + tuple(o["tail"])
    if o["dt"] == "i4":
        return R.randint(-1000, 1000, sh).astype("i4")
    x = R.randn(*sh)
    return x + 1j * R.randn(*sh) if o["dt"] == "c16" else x


@guarded
def execute(scn, scratch, sm):
    R, D = scn["size"], scn["ndev"]
    w = make_world(scn)

    def program(ctx):
        import jax.numpy as jnp
        mpi = ctx.mpi
        keep = []
        for i, o in enumerate(scn["ops"]):
            where = "rank %d, call %d" % (ctx.rank, i)
            if o["op"] == "bcast":
                root = 0 if o["root"] is None else o["root"] % R
                want = bdata(o)
                kw = {} if o["root"] is None else {"root": root}
                if ctx.rank == root:
                    arg = want.copy()
                    if o["form"] == "jnp":
                        arg = jnp.array(arg)
                    elif o["form"] == "stride":
                        big = np.zeros(2 * len(arg) + 1)
                        big[1::2] = arg
                        arg = big[1::2]
                    elif o["form"] == "rev":
                        arg = arg[::-1].copy()[::-1]
                    elif o["form"] == "ro":
                        arg.setflags(write=False)
                    if o["bad"]:
                        try:
                            mpi.bcast_unknown_size(np.ones(3).astype(o["bad"]), **kw)
                        except TypeError:
                            pass
                        else:
                            raise Violation("accepted", "%s: %s data was not refused" % (where, o["bad"]))
                else:
                    arg = {"none": None, "same": np.zeros(o["n"]), "longer": np.ones(o["n"] + 3), "shorter": np.ones(max(0, o["n"] - 2)),
                           "int": np.arange(4), "obj": "x"}[o["other"]]
                before = np.array(arg) if ctx.rank == root else None
                call = lambda: mpi.bcast_unknown_size(arg, **kw)        # noqa
            else:
                want = np.concatenate([gdata(o, r, D).reshape((-1,) + tuple(o["tail"])) for r in range(R)])
                arg = gdata(o, ctx.rank, D)
                arg = jnp.array(arg) if o["form"] == "jnp" else arg
                before = np.array(arg)
                call = lambda: mpi.gather(arg)        # noqa
            ctx.phase("op%d" % i)
            try:
                got = call()
            except (RuntimeError, KeyboardInterrupt) as e:
                if "imulated" not in str(e):
                    raise
                ctx.phase("retry")
                got = call()
            ctx.phase(None)
            g = np.asarray(got)
            expect(g.shape == want.shape and g.dtype == want.dtype, "wrong-shape", "%s: %s %s arrived, sent were %s %s" % (where, g.dtype, g.shape, want.dtype, want.shape))
            expect(g.tobytes() == want.tobytes(), "wrong-data", "%s (%s): %s arrived, sent were %s" % (where, o["op"], g.ravel()[:5], want.ravel()[:5]))
            if before is not None:
                expect(np.asarray(arg).tobytes() == before.tobytes(), "input-modified", "%s: the data passed in was modified" % where)
            keep.append((where, got, want, arg, before))
            if o["op"] == "bcast" and isinstance(arg, np.ndarray) and ctx.rank == root and arg.flags.writeable and arg.size:
                # the caller goes on using its array
                keep[-1] = (where, got, want, None, None)
                arg[...] = 7.0
                expect(np.asarray(got).tobytes() == want.tobytes(), "aliased", "%s: the result changed together with the array passed in" % where)
        for where, got, want, arg, before in keep:
            expect(np.asarray(got).tobytes() == want.tobytes(), "result-changed", "%s: the result changed during later calls" % where)
            if before is not None:
                expect(np.asarray(arg).tobytes() == before.tobytes(), "input-modified", "%s: the data passed in was modified later" % where)
    run_world(w, program, sm)
    sm.d["nontrivial"] = R > 1
