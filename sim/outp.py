"""Reference model of an output file: what a reader must find in it."""
import numpy as np

from .world import Violation

GROUPS = ["/", "run", "runs/a", "g2"]
NAMES = {"energy": {"mean": (1,), "variance": (1,), "MC_error": (1,)}, "X": {"mean": (3,)}, "ZZ": {"mean": (2, 2), "raw": ()}, "big": {"mean": (300,)}}
META = {"tdvp_error": (), "SNR": (4,), "spectrum": (4,), "residual": (), "many": (40, 3)}


def val(seed, shape):
    r = np.random.RandomState(seed % (1 << 32))
    x = r.randn(*shape) if shape else np.float64(r.randn())
    u = r.rand()
    if u < 0.1:
        x = x * 1e300
    elif u < 0.3:
        # counts and flags
        return np.asarray(np.round(np.asarray(x) * 10).astype("i8"))
    elif u < 0.35:
        return np.asarray(x).astype("f4")
    elif u < 0.42:
        x = np.array(x)
        x.ravel()[:1] = r.choice([np.nan, np.inf, -np.inf, -0.0])
    return np.asarray(x)


class Model:
    def __init__(self):
        self.series = {}        # (group, kind) -> [(time, {path: value})]
        self.sets = {}          # path -> array

    def copy(self):
        m = Model()
        m.series = {k: list(v) for k, v in self.series.items()}
        m.sets = dict(self.sets)
        return m

    def add(self, group, kind, time, rec):
        self.series.setdefault((group, kind), []).append((float(time), rec))


def gpath(group):
    return "" if group == "/" else "/" + group


def check_series(f, group, kind, recs, where, partial=None):
    """partial: a record that may or may not be there at the end."""
    base = gpath(group) + "/" + kind
    if base not in f or (base + "/times") not in f:
        if recs:
            raise Violation("lost-record", "%s: %d records of %s are gone" % (where, len(recs), base))
        return False
    times = np.array(f[base + "/times"])
    n = len(times)
    took = False
    if partial is not None and n == len(recs) + 1:
        recs = recs + [partial]
        took = True
    if n != len(recs):
        raise Violation("lost-record" if n < len(recs) else "extra-record", "%s: %s has %d times, expected %d" % (where, base, n, len(recs)))
    want_t = np.array([r[0] for r in recs])
    if not np.array_equal(times, want_t):
        raise Violation("wrong-time", "%s: times of %s are %s, expected %s" % (where, base, times.tolist(), want_t.tolist()))
    for name in sorted({k for r in recs for k in r[1]}):
        if base + "/" + name not in f:
            raise Violation("lost-record", "%s: %s/%s is missing" % (where, base, name))
        d = np.array(f[base + "/" + name])
        for i, r in enumerate(recs):
            if name in r[1]:
                v = np.asarray(r[1][name], dtype="f8")
                if i >= len(d) or d[i].shape != v.shape or not np.array_equal(d[i], v, equal_nan=True):
                    raise Violation("wrong-record", "%s: %s/%s record %d (time %r) is %s, written was %s" % (
                        where, base, name, i, r[0], d[i].tolist() if i < len(d) else "absent", v.tolist()))
            elif i < len(d) and not np.all(np.isnan(d[i])):
                raise Violation("misaligned", "%s: %s/%s record %d was not part of the record with time %r but holds %s" % (
                    where, base, name, i, r[0], d[i].tolist()))
    return took


def check_all(disk, fn, model, where, partial=None):
    """partial: (group, kind, (time, rec)); returns whether it is in the file"""
    took = False
    try:
        f = disk.read(fn)
    except Exception as e:      # noqa
        raise Violation("unreadable", "%s: the file cannot be opened: %s" % (where, str(e)[:200]))
    with f:
        keys = set(model.series)
        if partial is not None:
            keys.add(partial[:2])
        for g, kind in sorted(keys):
            try:
                t = check_series(f, g, kind, model.series.get((g, kind), []), where,
                                 partial[2] if partial is not None and partial[:2] == (g, kind) else None)
            except Violation:
                raise
            except Exception as e:      # noqa
                raise Violation("unreadable", "%s: %s/%s cannot be read: %s" % (where, g, kind, str(e)[:200]))
            took = took or t
        for p, v in model.sets.items():
            if p not in f:
                raise Violation("lost-record", "%s: data set %s is missing" % (where, p))
            d = np.array(f[p])
            if d.shape != v.shape or d.dtype != v.dtype or not np.array_equal(d, v, equal_nan=d.dtype.kind in "fc"):
                raise Violation("wrong-record", "%s: data set %s differs from what was written" % (where, p))
    return took


# ---------------------------------------------------------------- records
def gen_record(rng, kind, full=False, npar=6):
    o = {"kind": kind, "t": rng.choice([rng.randrange(100) / 8.0, rng.random() * 10, rng.randrange(5), -rng.random()]) if kind != "network_checkpoints" else
         rng.choice([rng.randrange(100) / 8.0, rng.random() * 10]), "s": rng.randrange(1 << 30)}
    if kind == "observables":
        ks = [(k, n) for k in NAMES for n in NAMES[k]]
        o["keys"] = ks if full else [k for k in ks if rng.random() < 0.7] or [ks[0]]
        o["keys"] = [list(k) for k in o["keys"]]
        rng.shuffle(o["keys"])
    elif kind == "metadata":
        ks = sorted(META)
        o["keys"] = ks if full else [k for k in ks if rng.random() < 0.7] or [ks[0]]
        rng.shuffle(o["keys"])
    else:
        o["n"] = npar
    return o


def record(o):
    """-> {path: value}"""
    if o["kind"] == "observables":
        return {"%s/%s" % (k, n): val(o["s"] + 17 * i, NAMES[k][n]) for i, (k, n) in enumerate(o["keys"])}
    if o["kind"] == "metadata":
        return {k: val(o["s"] + 17 * i, META[k]) for i, k in enumerate(o["keys"])}
    return {"checkpoints": np.asarray(val(o["s"], (o["n"],)), dtype="f8")}


def misshape(v, how):
    """Data that does not fit the series it is written to."""
    v = np.asarray(v, dtype="f8")
    if how == "cpx" and v.ndim:
        return v + 1j
    if how == "rank":
        return np.stack([v, v], axis=-1)
    if v.ndim == 0:
        return np.stack([v] * (1 if how == "one" else 2))
    if how == "one":
        return v.ravel()[:1].reshape((1,) * v.ndim) if v.size > 1 else np.concatenate([v, v])
    return v[:-1] if how == "short" else np.concatenate([v, v[:1]])


def write(outp, o, conv=lambda x: x):
    rec = record(o)
    if "bad" in o:
        k = sorted(rec)[o["bad"][0] % len(rec)]
        rec[k] = misshape(rec[k], o["bad"][1])
    if o["kind"] == "observables":
        kw = {}
        for p, v in rec.items():
            k, n = p.split("/")
            kw.setdefault(k, {})[n] = conv(v)
        outp.write_observables(o["t"], **kw)
    elif o["kind"] == "metadata":
        outp.write_metadata(o["t"], **{k: conv(v) for k, v in rec.items()})
    else:
        outp.write_network_checkpoint(o["t"], conv(rec["checkpoints"]))
