"""C17 amplitudes and gradients do not depend on batching, placement or call history."""
import copy

import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (64, 300), "thorough": (5000, 1500)}
RULE = ("R ranks x D devices; networks of all shipped families plus tables, built directly or from a description, two copies with different batch sizes; a history of 5-10 calls: "
        "amplitudes, gradients (vector, dictionary) of drawn configurations with different numbers per rank, parameters set / updated / "
        "set as a tree, from arrays that the caller reuses afterwards, failing device computations with retry; non-trivial: more than one rank or device")
ORACLE = "bare network function and its reverse-mode derivative on the whole basis (no batching, one device); bit-equality of parameters with what was set and across ranks and layouts"

NETS = [("cpxrbm", [2, 2]), ("nonholo", [2]), ("relu", [3]), ("rbm", [3]), ("ffn", [3]), ("two", [3]), ("cnn", [4]), ("cpxcnn", [4]), ("sym", [3]),
        ("symtwo", [3]), ("rnn", [3]), ("rnn1", [2]), ("symrnn", [3]), ("table", [3]), ("gtable", [2]),
        ("tworn", [3]), ("rnn2d", [2, 2]), ("cnn2d", [2, 2]), ("sym2d", [2, 2]), ("lstm", [3]), ("cpxrnn", [3]), ("symtworn", [3]),
        ("cpxcnnsym", [4]), ("gru", [3]), ("rnndeep", [3]), ("symrnn2d", [2, 2]), ("rnn2dlstm", [2, 2]),
        ("i_ffn", [3]), ("i_two", [3]), ("i_rnn", [3]), ("i_cpxcnn", [4]), ("i_tworn", [3]), ("i_cnn2d", [2, 2])]


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({} if th else {"sizes": (1, 2, 3), "ndevs": (1, 2, 3)}))
    scn["ansatz"], scn["shape"] = NETS[idx % len(NETS)] if rng.random() < 0.8 else rng.choice(NETS)
    scn["batches"] = rng.sample([1, 2, 3, 5, 1000], 2)
    scn["nseed"] = 3 if rng.random() < 0.4 else rng.randrange(1000)
    ops = []
    kinds = ["eval", "grad", "dict"] + [rng.choice(["eval", "grad", "dict"]), "set", "update", "tree"][:rng.randrange(2, 5)]
    if th:
        kinds += [rng.choice(kinds) for _ in range(rng.randrange(6))]
    rng.shuffle(kinds)
    for k in kinds:
        o = {"op": k, "which": rng.randrange(2), "s": rng.randrange(1 << 30)}
        if k in ("eval", "grad", "dict"):
            o["reuse"] = rng.random() < 0.4
            o["b"] = [rng.choice([1, 2, 3, 5, 7]) for _ in range(4)] if th else [rng.choice([1, 3, 5] if rng.random() < 0.93 else [24]) for _ in range(4)]
        else:
            o["again"] = rng.choice([0, 1, 2])
            o["scale"] = rng.choice([0.1, 0.1, 1e-6])
            o["buf"] = rng.random() < 0.4       # passed in an array that the caller goes on using, as ODE solvers do
        ops.append(o)
    scn["ops"] = ops
    if rng.random() < 0.2:
        c = [i for i, o in enumerate(ops) if o["op"] in ("eval", "grad", "dict")]
        if c:
            scn["faults"].append({"seam": "device", "phase": "op%d" % rng.choice(c), "k": 0, "what": rng.choice(["oom", "interrupt"])})
    return scn


@guarded
def execute(scn, scratch, sm):
    shape = tuple(scn["shape"])
    net = ref.refnet(scn["ansatz"], shape)
    w = make_world(scn)

    def program(ctx):
        import jax
        import jax.numpy as jnp
        if scn["ansatz"] in ref.DESCR:      # both networks from one description
            d = copy.deepcopy(ref.DESCR[scn["ansatz"]])
            psis = []
            for b in scn["batches"]:
                d["batch_size"] = b
                psis.append(ctx.jVMC.util.util.init_net(d, shape, seed=scn["nseed"]))
        else:
            psis = [ref.make_psi(ctx, scn["ansatz"], shape, seed=scn["nseed"], batchSize=b) for b in scn["batches"]]
        cur = [np.array(p.get_parameters()) for p in psis]
        init = cur[0].copy()
        same_bits(cur, "initial parameters of two networks with equal seed", "init")
        if scn["nseed"] == 3:
            want = np.concatenate([np.concatenate([np.asarray(l).real.ravel(), np.asarray(l).imag.ravel()]) if net.cpx else np.asarray(l).ravel()
                                   for l in jax.tree_util.tree_leaves(net.params0["params"])])
            same_bits([want, init], "initial parameters and those on one process and device", "init")
        expect(len(init) == net.n, "wrong-shape", "%d parameters, expected %d" % (len(init), net.n))
        held = None          # array objects that are evaluated again and again
        for i, o in enumerate(scn["ops"]):
            j = o["which"]
            psi = psis[j]
            where = "rank %d, call %d (%s, batch size %d)" % (ctx.rank, i, scn["ansatz"], scn["batches"][j])
            if o["op"] == "set":
                cur[j] = rs(o["s"]).randn(net.n) * 0.3
                buf = cur[j].copy()
                psi.set_parameters(buf if o["buf"] else jnp.array(cur[j]))
                buf *= -0.7
            elif o["op"] == "update":
                d = rs(o["s"]).randn(net.n) * o["scale"]
                buf = d.copy()
                psi.update_parameters(buf if o["buf"] else jnp.array(d))
                buf *= -0.7
                cur[j] = cur[j] + d
            elif o["op"] == "tree":
                cur[j] = rs(o["s"]).randn(net.n) * 0.3
                psis[1 - j].set_parameters(jnp.array(cur[j]))
                psi.params = psis[1 - j].params
                psis[1 - j].set_parameters(jnp.array(cur[1 - j]))
            else:
                st = net.states[rs(o["s"] + 13 * ctx.rank).randint(0, len(net.states), (ctx.ndev, o["b"][ctx.rank % 4]))]
                s = jnp.array(st, dtype=np.int32)
                ids = net.idx(st).reshape(st.shape[:2])
                if held is not None and o.get("reuse"):
                    s, ids = held
                held = s, ids
                fn = {"eval": psi, "grad": psi.gradients, "dict": psi.gradients_dict}[o["op"]]
                ctx.phase("op%d" % i)
                try:
                    got = fn(s)
                except (RuntimeError, KeyboardInterrupt) as e:
                    if "imulated" not in str(e):
                        raise
                    ctx.phase("retry")
                    got = fn(s)
                ctx.phase(None)
                if o["op"] == "eval":
                    close(got, net.logpsi(cur[j])[ids], "%s: amplitudes" % where, rtol=1e-9, atol=1e-11)
                else:
                    G = net.grads(cur[j])
                    if o["op"] == "grad":
                        close(got, G[ids], "%s: gradients" % where, rtol=1e-8, atol=1e-10)
                    else:
                        mp = psi.grad_dict_to_vec_map()
                        a = jax.tree_util.tree_leaves(got)
                        m = jax.tree_util.tree_leaves(mp)
                        expect(jax.tree_util.tree_structure(mp) == jax.tree_util.tree_structure(got), "wrong-tree", "%s: dictionary of gradients has another structure than its map" % where)
                        expect(sorted(int(q) for x in m for q in np.asarray(x)) == list(range(net.n)), "wrong-map", "%s: the map does not list every parameter once" % where)
                        for x, q in zip(a, m):
                            close(x, G[ids][..., np.asarray(q)], "%s: dictionary of gradients" % where, rtol=1e-8, atol=1e-10)
            if o.get("again") and held is not None:
                for q in ([j, 1 - j] if o["again"] == 2 else [j]):
                    close(psis[q](held[0]), net.logpsi(cur[q])[held[1]], "%s: amplitudes of network %d for the same array as before" % (where, q), rtol=1e-9, atol=1e-11)
            for q in range(2):
                p = np.array(psis[q].get_parameters())
                if o["op"] == "update" and q == j:
                    close(p, cur[q], "%s: parameters of network %d" % (where, q), rtol=1e-15, atol=1e-15)
                    cur[q] = p
                else:
                    same_bits([cur[q], p], "%s: parameters of network %d" % (where, q), "params-changed")
        return [init] + cur
    outs = run_world(w, program, sm)
    for k in range(3):
        same_bits([o[k] for o in outs], "parameters")
        sm.note(outs[0][k])
    sm.d["nontrivial"] = scn["size"] * scn["ndev"] > 1
