"""C15 a failed computation leaves wave function and sampler usable."""
import numpy as np

from sim.lib import *
from sim import ref

TIERS = {"quick": (80, 240), "thorough": (5000, 1500)}
RULE = ("one TDVP update, MinSR update, integrator step, measurement or sampling call (exact, Markov chains, direct; own or explicit "
        "parameters) is ended at the k-th device computation or communication, k drawn over all of them, by an allocation failure, a "
        "communication error or an interrupt, up to three times at different points, and then repeated, followed by a measurement; non-trivial: a fault fired")
ORACLE = ("the exception arrives; parameters are bitwise those before the call; the repeated call agrees with a run without faults (exact "
          "sampling) or with the serial evaluation on the samples it drew (Monte Carlo), on every rank")


def generate(rng, idx, tier):
    th = tier == "thorough"
    scn = gen_base(rng, idx, **({} if th else {"sizes": (1, 2, 3), "ndevs": (1, 2)}))
    scn["sampler"] = rng.choice(["exact", "exact", "mc", "gen"])
    scn["ansatz"] = "gtable" if scn["sampler"] == "gen" else rng.choice(["cpxrbm", "table"])
    scn["call"] = rng.choice(["tdvp", "tdvp", "minsr", "measure", "sample", "samplep", "samplep", "step"])
    scn["cross"] = scn["size"] * scn["ndev"] <= 3 and rng.random() < 0.5
    scn["follow"] = rng.random() < 0.5
    scn["warm"] = rng.random() < 0.5
    scn["n"] = rng.choice([7, 12])
    scn["ham"] = rng.randrange(1 << 30) if th else rng.randrange(3)
    scn["many"] = rng.random() < 0.2
    scn["eb"] = rng.choice([-1, -1, 2])
    scn["cuts"] = [{"seam": rng.choice(["device", "device", "collective"]), "frac": rng.random(), "what": None} for _ in range(rng.choice([1, 2, 3]))]
    for c in scn["cuts"]:
        c["what"] = rng.choice(["oom", "interrupt"] if c["seam"] == "device" else ["mpierr", "interrupt"])
    return scn


def theta(s, n):
    return rs(s).randn(n) * 0.4


L = 3


def job(scn, faults, sm, terms, net):
    w = make_world(scn, faults=faults, watch_devices=True)

    def program(ctx):
        import jax.numpy as jnp
        J = ctx.jVMC
        psi = ref.make_psi(ctx, scn["ansatz"], (L,), seed=3)
        cur = theta(scn["seed"], net.n)
        psi.set_parameters(jnp.array(cur))
        H = ref.build(ctx, terms, L, batch=scn.get("eb", -1))
        if scn["sampler"] == "exact":
            sampler = J.sampler.ExactSampler(psi, (L,))
        else:
            sampler = J.sampler.MCSampler(psi, (L,), 99, updateProposer=J.sampler.propose_spin_flip, numChains=2, numSamples=scn["n"],
                                          thermalizationSweeps=2, sweepSteps=L)
        rec = []
        orig = sampler.sample

        def sample(*a, **k):
            out = orig(*a, **k)
            rec.append([np.array(x) for x in out])
            return out
        sampler.sample = sample
        tdvp = J.util.TDVP(sampler, snrTol=1, pinvTol=1e-3, pinvCutoff=1e-3, makeReal="imag", rhsPrefactor=1.j, crossValidation=scn["cross"])
        minsr = J.util.MinSR(sampler, pinvTol=1e-4)
        stepper = J.util.stepper.Heun(timeStep=1e-2)
        keys = []
        other = jnp.array(theta(scn["seed"] + 1, net.n))

        def call():
            k = scn["call"]
            if k == "tdvp":
                u = tdvp(other, 0.3, psi=psi, hamiltonian=H, intStep=0)
                meta = tdvp.get_metadata()
                keys[:] = sorted(meta)
                return {"u": u, "Em": tdvp.get_energy_mean(), "Ev": tdvp.get_energy_variance(), "ev": tdvp.get_spectrum(),
                        "S": tdvp.get_S(), "err": tdvp.get_residuals()[0]}
            if k == "minsr":
                u = minsr(other, 0.3, psi=psi, hamiltonian=H, intStep=0)
                return {"u": u, "Em": minsr.get_energy_mean(), "Ev": minsr.get_energy_variance()}
            if k == "measure":
                m = J.util.measure({"H": [(H, 0.3)]}, psi, sampler)
                return {"Em": m["H"]["mean"][0], "Ev": m["H"]["variance"][0]}
            if k == "step":
                y, dt = stepper.step(0.3, tdvp, other, psi=psi, hamiltonian=H)
                return {"u": y, "dt": dt}
            if k == "sample":
                sampler.sample()
                return {}
            sampler.sample(parameters=other)
            return {}
        if scn["warm"]:
            call()
        ncut = len(scn["cuts"])
        res = None
        for a in range(ncut + 1):
            del rec[:]
            ctx.phase("try%d" % a)
            try:
                res = call()
                failed = False
            except (RuntimeError, KeyboardInterrupt) as e:
                if "imulated" not in str(e):
                    raise
                failed = True
            fired = any(ctx.rank in f.get("_hit", []) and f["phase"] == "try%d" % a for f in w.faults)
            ctx.phase(None)
            if fired and not failed:
                raise Violation("swallowed", "rank %d: attempt %d failed inside but the caller was not told" % (ctx.rank, a))
            same_bits([cur, np.array(psi.get_parameters())], "rank %d: parameters after %s attempt %d of %s" % (
                ctx.rank, "the failed" if failed else "the successful", a, scn["call"]), "params-changed")
            if not failed and faults is not None and a == ncut:
                break
        # the wave function still works
        v = np.array(psi(jnp.broadcast_to(jnp.array(net.states, dtype=np.int32), (ctx.ndev,) + net.states.shape)))
        close(v[0], net.logpsi(cur), "rank %d: amplitudes afterwards" % ctx.rank, rtol=1e-9)
        last = rec[-1]
        fol = None
        if scn["follow"]:
            m = J.util.measure({"H": [(H, 0.3)]}, psi, sampler)["H"]
            fol = [np.array(m["mean"][0]), np.array(m["variance"][0]), rec[-1]]
        return {"keys": list(keys), "fol": fol, "res": {k: np.array(v) for k, v in res.items()}, "rec": last, "nrec": len(rec),
                "N": None if scn["sampler"] == "exact" else int(sampler.get_last_number_of_samples())}
    outs = run_world(w, program, sm)
    return w, outs


@guarded
def execute(scn, scratch, sm):
    net = ref.refnet(scn["ansatz"], (L,))
    terms = ref.gen_terms(rs(scn["ham"]), L, 4, tdep=True)
    if scn.get("many"):
        terms = ref.gen_terms(rs(scn["ham"]), L, 55, tdep=True, maxlen=2, plain=0.0, scale=0.3)
    w0, outs0 = job(scn, [], sm, terms, net)
    faults = []
    for a, c in enumerate(scn["cuts"]):
        n = min(len(w0.seam_totals.get((r, "try%d" % a, c["seam"]), [])) for r in range(scn["size"]))
        if n:
            faults.append({"seam": c["seam"], "phase": "try%d" % a, "k": int(c["frac"] * n), "what": c["what"]})
    w, outs = job(scn, faults, sm, terms, net)
    if scn["call"] == "step" or scn["call"] in ("tdvp", "minsr", "samplep"):
        th = theta(scn["seed"] + 1, net.n)
    else:
        th = theta(scn["seed"], net.n)
    conf = ref.all_states([o["rec"][0] for o in outs])
    p = ref.all_states([o["rec"][2] for o in outs])
    lp = ref.all_states([o["rec"][1] for o in outs])
    close(p.sum(), 1.0, "sum of the weights after the failure", rtol=1e-9)
    if scn["sampler"] != "exact":
        expect(all(o["N"] == len(conf) for o in outs), "accounting", "%d samples, %s reported" % (len(conf), [o["N"] for o in outs]))
        if scn["call"] != "step":
            close(p, np.full(len(p), 1.0 / len(p)), "weights after the failure", rtol=1e-9)
    if scn["call"] != "step":
        lref = net.logpsi(th)
        close(lp[p > 0], lref[net.idx(conf)][p > 0], "amplitudes of the samples after the failure", rtol=1e-9)
        if scn["sampler"] == "exact":
            q = np.exp(2 * lref.real)
            q = q / q.sum()
            cnt = np.bincount(net.idx(conf[p > 0]), minlength=2 ** L)
            expect(np.all(cnt == 1), "coverage", "states counted %s times" % cnt.tolist())
            close(p[p > 0], q[net.idx(conf[p > 0])], "probabilities after the failure", rtol=1e-9)
        E = (ref.dense(terms, L, 0.3) * np.exp(lref[None, :] - lref[:, None])).sum(axis=1)[net.idx(conf)]
        m = np.sum(p * E)
        if "Em" in outs[0]["res"]:
            close(outs[0]["res"]["Em"], m.real, "energy after the failure", rtol=1e-8, atol=1e-9)
            close(outs[0]["res"]["Ev"], np.sum(p * np.abs(E - m) ** 2), "energy variance after the failure", rtol=1e-7, atol=1e-8)
    expect(all(o["keys"] == outs0[0]["keys"] for o in outs), "metadata", "metadata after the failure %s, without one %s" % (
        [o["keys"] for o in outs], outs0[0]["keys"]))
    if scn["follow"]:
        # another call on the same objects
        th = theta(scn["seed"], net.n)
        lref = net.logpsi(th)
        conf, lp, p = (ref.all_states([o["fol"][2][i] for o in outs]) for i in range(3))
        close(lp[p > 0], lref[net.idx(conf)][p > 0], "amplitudes of the samples of the following measurement", rtol=1e-9)
        E = (ref.dense(terms, L, 0.3) * np.exp(lref[None, :] - lref[:, None])).sum(axis=1)[net.idx(conf)]
        m = np.sum(p * E)
        close(p.sum(), 1.0, "sum of the weights of the following measurement", rtol=1e-9)
        for o in outs:
            close(o["fol"][0], m.real, "mean measured afterwards", rtol=1e-8, atol=1e-9)
            close(o["fol"][1], np.sum(p * np.abs(E - m) ** 2), "variance measured afterwards", rtol=1e-7, atol=1e-8)
    for k in outs[0]["res"]:
        same_bits([o["res"][k] for o in outs], "%s after the failure" % k)
        if scn["sampler"] == "exact":
            close(outs[0]["res"][k], outs0[0]["res"][k], "%s after the failure" % k, rtol=1e-6, atol=1e-8)
        sm.note(outs[0]["res"][k])
    sm.d["nontrivial"] = any(f.get("_hit") for f in w.faults)


def valid(scn):
    return len(scn["cuts"]) > 0
