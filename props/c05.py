"""C05 random streams: independent across ranks, devices, chains and calls; reproducible."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (64, 240), "thorough": (3000, 1500)}
RULE = ("R ranks x D devices x C chains; a history of sampling calls and key changes (int seed or key), observed through always-accepted single "
        "flips on 60 sites (proposal stream), constant acceptance 1/2 (dice stream) or directly sampled 60-bit rows; every job is "
        "executed twice under different schedules and network noise; non-trivial: more than one chain or row in the job")
ORACLE = ("no 8 consecutive random moves (no 48 consecutive dice, no row) occur twice in the job unless the same key was set again; "
          "bitwise equality of the two executions and of calls repeated with the same key")
L = 60


def generate(rng, idx, tier):
    scn = gen_base(rng, idx, sizes=(1, 2, 3, 4))
    scn["mode"] = ["flips", "rows", "dice", "rows", "symrows"][idx % 5]
    scn["chains"] = rng.choice([1, 2, 3])
    scn["therm"] = rng.choice([0, 0, 2])
    scn["key"] = rng.randrange(1 << 30)
    scn["keyform"] = rng.choice(["int", "key"])
    ops = []
    keys = [rng.randrange(1 << 30) for _ in range(2)]
    for _ in range(rng.randrange(3, 6)):
        if rng.random() < 0.35:
            ops.append({"op": "key", "k": rng.choice(keys)})
        ops.append({"op": "sample"})
    if rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops)), {"op": "param"})
    scn["ops"] = ops
    scn["sched2"] = gen_sched(rng, scn["size"])
    scn["net2"] = gen_net(rng)
    if rng.random() < 0.15 and scn["mode"] != "rows":
        pass
    return scn


def counter(key, s, info):
    return s.at[0].add(1)


def run(scn, sm, sched, net):
    T = {"flips": 14, "rows": 5, "symrows": 5, "dice": 60}[scn["mode"]]
    C = scn["chains"]
    n = scn["size"] * scn["ndev"] * T * (C if scn["mode"] in ("flips", "dice") else 1)
    w = make_world({**scn, "sched": sched, "net": net})

    def program(ctx):
        import jax
        import jax.numpy as jnp
        J = ctx.jVMC
        ans = {"flips": "const", "rows": "flat", "dice": "level", "symrows": "flat"}[scn["mode"]]
        shape = (L,) if scn["mode"] != "dice" else (1,)
        if scn["mode"] == "symrows":
            psi = J.vqs.NQS(ref.table_classes()["Flat"](L=L), orbit=J.util.symmetries.get_orbit_1D(L, "reflection"),
                            avgFun=J.nets.sym_wrapper.avgFun_Coefficients_Sep)
            psi(jnp.zeros((ctx.ndev, 1, L), dtype=np.int32))
        else:
            psi = ref.make_psi(ctx, ans, shape, seed=1)
        key = scn["key"] if scn["keyform"] == "int" else jax.random.PRNGKey(scn["key"])
        s = J.sampler.MCSampler(psi, shape, key, updateProposer=counter if scn["mode"] == "dice" else J.sampler.propose_spin_flip,
                                numChains=C, numSamples=n, thermalizationSweeps=scn["therm"], sweepSteps=1)
        out = []
        for o in scn["ops"]:
            if o["op"] == "key":
                s.set_random_key(jax.random.PRNGKey(o["k"]))
            elif o["op"] == "param":
                psi.set_parameters(jnp.array([0.7]))
            else:
                out.append(np.array(s.sample()[0]))
        return out
    outs = run_world(w, program, sm)
    sm.d["nontrivial"] = n // T > 1 or scn["mode"] == "rows"
    return outs, T


@guarded
def execute(scn, scratch, sm):
    outs, T = run(scn, sm, scn["sched"], scn["net"])
    again, _ = run(scn, sm, scn["sched2"], scn["net2"])
    for r in range(scn["size"]):
        for c in range(len(outs[0])):
            same_bits([outs[r][c], again[r][c]], "samples of call %d on rank %d in two executions with different timing" % (c, r), "not-reproducible")
            sm.note(outs[r][c])
    # epoch of each call: which key it was drawn with, how many calls before it since the key was set
    epochs, cur, cnt = [], None, 0
    for o in scn["ops"]:
        if o["op"] == "key":
            cur, cnt = o["k"], 0
        elif o["op"] == "sample":
            epochs.append((cur, cnt))
            cnt += 1
    C = scn["chains"]
    seen = {}
    streams = {}
    for c, ep in enumerate(epochs):
        for r in range(scn["size"]):
            x = outs[r][c]
            for d in range(x.shape[0]):
                if scn["mode"] in ("rows", "symrows"):
                    expect(x.shape[1] == T, "wrong-shape", "%d rows per device, expected %d" % (x.shape[1], T))
                    items = [("row", k, x[d, k].tobytes()) for k in range(x.shape[1])]
                else:
                    expect(x.shape[1] == T * C, "wrong-shape", "%d samples per device, expected %d" % (x.shape[1], T * C))
                    y = x[d].reshape((T, C, -1)).astype(np.int64)
                    items = []
                    for ch in range(C):
                        df = np.diff(y[:, ch], axis=0)
                        if scn["mode"] == "flips":
                            expect(np.all(np.abs(df).sum(axis=1) == 1), "not-single-flip",
                                   "rank %d device %d chain %d call %d: an always accepted update flipped %s sites" % (
                                       r, d, ch, c, np.abs(df).sum(axis=1).tolist()))
                            mv = np.abs(df).argmax(axis=1)
                            items += [("flips", (ch, k), bytes(mv[k:k + 8].astype(np.uint8))) for k in range(len(mv) - 7)]
                        else:
                            mv = df[:, 0]
                            expect(set(np.unique(mv)) <= {0, 1}, "dice", "counter moved by %s" % np.unique(mv))
                            items += [("dice", (ch, k), bytes(mv[k:k + 48].astype(np.uint8))) for k in range(len(mv) - 47)]
                for kind, pos, val in items:
                    me = (ep, r, d, pos)
                    if val in seen and seen[val] != me:
                        raise Violation("repeated-stream", "%s: call %d rank %d device %d position %s repeats the random numbers of "
                                        "key epoch %s rank %d device %d position %s" % (kind, c, r, d, pos, *seen[val]))
                    seen[val] = me
                    if ep[0] is not None:
                        if streams.setdefault((me, kind), val) != val:
                            raise Violation("not-reproducible", "%s: call %d rank %d device %d position %s: the same key set again gave different samples" % (
                                kind, c, r, d, pos))
    if scn["mode"] == "dice":
        acc = np.mean([np.diff(outs[r][c][d].reshape((T, C, -1)), axis=0).mean() for r in range(scn["size"]) for c in range(len(epochs))
                       for d in range(outs[r][c].shape[0])])
        n = scn["size"] * len(epochs) * scn["ndev"] * C * (T - 1)
        # at least one independent epoch; five sigma and more
        expect(abs(acc - 0.5) < 7 * 0.5 / np.sqrt(n / len(epochs)), "dice", "acceptance %.3f instead of 0.5" % acc)


def valid(scn):
    return any(o["op"] == "sample" for o in scn["ops"])
