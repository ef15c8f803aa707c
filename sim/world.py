"""Deterministic simulator for an MPI job.

R ranks run inside one process.  Every rank owns a private, freshly imported
instance of the package under test plus its own stand-ins for ``mpi4py``,
``h5py`` and ``time``.  Ranks are real Python threads, but exactly one of them
runs at any moment: at every seam (collective entry / exit, file operation,
clock advance, device computation) the running rank hands the baton to the
scheduler, which picks the next rank from a seeded generator (or from a recorded
list of choices).  One scenario is therefore one exactly repeatable execution.
"""

import builtins
import hashlib
import importlib
import io
import os
import random
import sys
import threading
import time as _real_time
import traceback
import types

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = "jVMC"


class SimAbort(BaseException):
    """Unwinds a rank thread whose process was killed or whose job was stopped."""


class SimMPIException(RuntimeError):
    """Stands for mpi4py.MPI.Exception."""


class SimError(Exception):
    """A wrong use of the simulated environment (what a real MPI library would
    abort on, or silently corrupt)."""


class Violation(Exception):
    """Raised by oracles."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


READY, BLOCKED, DONE = "ready", "blocked", "done"


class Rank:
    def __init__(self, world, r):
        self.world = world
        self.r = r
        self.state = READY
        self.pred = None            # wake-up predicate while blocked
        self.where = "start"
        self.sem = threading.Semaphore(0)
        self.local = 0.0            # local simulated time
        self.skew = 0.0
        self.outcome = None         # ("ok", value) | ("exc", exc, tb) | ("killed",)
        self.modules = {}
        self.kill_me = False
        self.coll_seq = {}
        self.prio = 0.0
        self.ctx = None
        self.phase = None
        self.seam_count = {}


class Scheduler:
    """Seeded choice of who runs next.  Every decision with more than one
    candidate is recorded, so that a run can be replayed from the list alone."""

    def __init__(self, spec):
        self.spec = dict(spec or {})
        self.rng = random.Random(self.spec.get("seed", 0))
        self.policy = self.spec.get("policy", "uniform")
        self.choices = self.spec.get("choices")      # replay list or None
        self.pos = 0
        self.record = []
        self.starved = self.spec.get("starve")
        self.change = set(self.spec.get("change", []))
        self.steps = 0

    def pick(self, ready, current):
        """ready: sorted list of rank numbers."""
        self.steps += 1
        if len(ready) == 1:
            return ready[0]
        if self.choices is not None:
            c = self.choices[self.pos] if self.pos < len(self.choices) else None
            self.pos += 1
            pick = c if c in ready else (current if current in ready else ready[0])
        elif self.policy == "sticky":
            pick = current if (current in ready and self.rng.random() > 0.1) else self.rng.choice(ready)
        elif self.policy == "roundrobin":
            nxt = [x for x in ready if current is not None and x > current]
            pick = nxt[0] if nxt else ready[0]
        elif self.policy == "starve":
            others = [x for x in ready if x != self.starved % (max(ready) + 1 if ready else 1)]
            pick = self.rng.choice(others) if others else ready[0]
        elif self.policy == "prio":
            if not hasattr(self, "prios"):
                self.prios = {}
            for x in ready:
                if x not in self.prios:
                    self.prios[x] = self.rng.random()
            pick = max(ready, key=lambda x: self.prios[x])
            if self.rng.random() < 0.1:
                self.prios[pick] = self.rng.random() * min(self.prios.values())
        else:
            pick = self.rng.choice(ready)
        self.record.append(pick)
        return pick


class Recorder(io.TextIOBase):
    """stdout stand-in: who printed what."""

    def __init__(self, world):
        self.world = world

    def write(self, s):
        w = self.world
        w.printed.append((w.current, s))
        return len(s)

    def flush(self):
        pass


class World:
    def __init__(self, size, ndev=1, sched=None, seed=0, disk=None, faults=None,
                 net=None, max_steps=200000, device_mode="visible", watch_devices=False,
                 log_limit=20000):
        self.size = size
        self.ndev = list(ndev) if isinstance(ndev, (list, tuple)) else [ndev] * size
        self.sched = Scheduler(sched)
        self.rng = random.Random(seed * 7919 + 13)        # network / clock draws
        self.lat_rng = random.Random(seed * 104729 + 7)
        self.net = dict(net or {})
        self.faults = [dict(f) for f in (faults or [])]
        self.disk = disk
        self.ranks = [Rank(self, r) for r in range(size)]
        self.current = None
        self.slots = {}
        self.mail = {}
        self.printed = []
        self.events = []
        self.evhash = hashlib.sha256()
        self.ilhash = hashlib.sha256()
        self.nevents = 0
        self.max_steps = max_steps
        self.steps = 0
        self.deadlock = None
        self.problems = []
        self.fault_counts = {}
        self.probes = {}
        self.done_sem = threading.Semaphore(0)
        self.aborting = False
        self.device_mode = device_mode
        self.watch_devices = watch_devices or any(f["seam"] == "device" for f in (faults or []))
        self.log_limit = log_limit
        self.coll_log = []
        self.comm_time = [0.0] * size
        skew = self.net.get("skew", 0.0)
        for rk in self.ranks:
            rk.skew = self.rng.uniform(0, skew) if skew else 0.0
        self.seam_totals = {}
        self.open_files = {}

    # ------------------------------------------------------------------ logging
    def log(self, rank, kind, detail=""):
        self.nevents += 1
        rec = "%d|%s|%s|%s" % (self.nevents, rank, kind, detail)
        self.evhash.update(rec.encode())
        self.ilhash.update(("%s|%s;" % (rank, kind)).encode())
        if len(self.events) < self.log_limit:
            self.events.append((rank, kind, detail))

    def count_fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ------------------------------------------------------------------ baton
    def _activate(self, r):
        rk = self.ranks[r]
        if self.current != r:
            if self.current is not None:
                self._stash(self.ranks[self.current])
            for k in [k for k in sys.modules if _owned(k)]:
                del sys.modules[k]
            sys.modules.update(rk.modules)
            _install_jax(self, rk)
        self.current = r

    def _stash(self, rk):
        rk.modules = {k: v for k, v in sys.modules.items() if _owned(k)}

    def _ready(self):
        out = []
        for rk in self.ranks:
            if rk.state == READY:
                out.append(rk.r)
            elif rk.state == BLOCKED and (rk.kill_me or self.aborting or rk.pred()):
                out.append(rk.r)
        return out

    def _switch(self, me):
        """Called by the running rank (or the main thread: me is None).  Gives the
        baton to the next rank and returns once this rank has it again."""
        self.steps += 1
        if self.steps > self.max_steps and not self.aborting:
            self.problems.append(("livelock", "no termination within %d scheduling steps" % self.max_steps))
            self.aborting = True
        ready = self._ready()
        if not ready:
            if all(rk.state == DONE for rk in self.ranks):
                self.done_sem.release()
                return
            if not self.aborting:
                self.deadlock = {rk.r: (rk.where if rk.state != DONE else "finished (%s)" % rk.outcome[0])
                                 for rk in self.ranks}
                self.aborting = True
                ready = self._ready()
        nxt = self.sched.pick(ready, me.r if me is not None else None)
        rk = self.ranks[nxt]
        if rk is me:
            rk.state = READY
            rk.pred = None
        else:
            rk.sem.release()
            if me is not None and me.state != DONE:
                me.sem.acquire()
                me.state = READY
                me.pred = None
                self._activate(me.r)
        if me is not None and me.state != DONE and (self.aborting or me.kill_me):
            raise SimAbort()

    def yield_point(self, where):
        me = self.me()
        if me is None:
            return
        me.where = where
        self._switch(me)

    def block_until(self, pred, where):
        me = self.me()
        me.where = where
        while not pred():
            me.state = BLOCKED
            me.pred = pred
            self._switch(me)

    def me(self):
        return getattr(_tls, "rank", None)

    def advance(self, dt, what="compute"):
        me = self.me()
        me.local += dt

    def now(self, r=None):
        me = self.me() if r is None else self.ranks[r]
        return me.skew + me.local

    # ------------------------------------------------------------------ running
    def run(self, program, import_pkg=True):
        saved_modules = {k: v for k, v in sys.modules.items() if _owned(k)}
        saved_stdout = sys.stdout
        saved_jax = _save_jax()
        sys.stdout = Recorder(self)
        threads = []
        try:
            for rk in self.ranks:
                rk.modules = make_stub_modules(self, rk)
                t = threading.Thread(target=self._thread, args=(rk, program, import_pkg), daemon=True)
                threads.append(t)
            for t in threads:
                t.start()
            self._switch(None)
            self.done_sem.acquire()
            for t in threads:
                t.join()
        finally:
            sys.stdout = saved_stdout
            _restore_jax(saved_jax)
            for k in [k for k in sys.modules if _owned(k)]:
                del sys.modules[k]
            sys.modules.update(saved_modules)
        return self

    def _thread(self, rk, program, import_pkg):
        _tls.rank = rk
        rk.sem.acquire()
        try:
            if self.aborting or rk.kill_me:
                raise SimAbort()
            self._activate(rk.r)
            ctx = Ctx(self, rk)
            rk.ctx = ctx
            if import_pkg:
                ctx.load()
            rk.outcome = ("ok", program(ctx))
        except SimAbort:
            rk.outcome = ("killed", None)
        except BaseException as e:       # noqa
            rk.outcome = ("exc", e, traceback.format_exc())
            e.__traceback__ = None
            self.log(rk.r, "exception", type(e).__name__)
        rk.state = DONE
        rk.where = "finished"
        rk.ctx = None
        try:
            self._switch(rk)
        except BaseException:            # noqa
            pass

    # ------------------------------------------------------------------ faults
    def set_phase(self, rk, name):
        rk.phase = name
        rk.seam_count = {}

    def seam(self, seam, op=""):
        """Passed by every rank at every seam operation.  Returns the fault that
        fires here, or None.  A fault names a phase of the workload, a seam, and the
        number k of the seam operation (within that phase, on that rank) it hits."""
        rk = self.me()
        if rk is None:
            return None
        key = (rk.phase, seam)
        n = rk.seam_count.get(seam, 0)
        rk.seam_count[seam] = n + 1
        tot = self.seam_totals.setdefault((rk.r, rk.phase, seam), [])
        tot.append(op)
        for ft in self.faults:
            if ft["seam"] != seam or ft.get("phase") != rk.phase or ft["k"] != n:
                continue
            if ft.get("rank") is not None and ft["rank"] != rk.r:
                continue
            if rk.r in ft.setdefault("_hit", []):
                continue
            ft["_hit"].append(rk.r)
            self.count_fault("%s:%s" % (seam, ft["what"]))
            self.log(rk.r, "fault", "%s:%s@%s" % (seam, ft["what"], op))
            return ft
        return None

    def raise_fault(self, ft):
        what = ft["what"]
        if what == "kill":
            self.kill_all()
            raise SimAbort()
        if what == "oom":
            from jaxlib.xla_extension import XlaRuntimeError
            raise XlaRuntimeError("RESOURCE_EXHAUSTED: Out of memory (simulated)")
        if what == "interrupt":
            raise KeyboardInterrupt("simulated")
        if what == "mpierr":
            raise SimMPIException("simulated communication failure")
        if what == "enospc":
            raise OSError(28, "No space left on device (simulated)")
        if what == "eio":
            raise OSError(5, "Input/output error (simulated)")
        raise AssertionError(what)

    def kill_all(self):
        """The whole job dies now; only what is on disk survives."""
        if self.disk is not None:
            self.disk.freeze()
        self.aborting = True

    # ------------------------------------------------------------------ verdict helpers
    def digest(self):
        return self.evhash.hexdigest()

    def interleaving(self):
        return self.ilhash.hexdigest()

    def check_clean(self):
        """No rank failed, none is stuck, nothing was misused."""
        for kind, msg in self.problems:
            raise Violation(kind, msg)
        for rk in self.ranks:
            if rk.outcome and rk.outcome[0] == "exc" and isinstance(rk.outcome[1], Violation):
                raise rk.outcome[1]
        for rk in self.ranks:
            if rk.outcome and rk.outcome[0] == "exc":
                e = rk.outcome[1]
                tail = [l for l in rk.outcome[2].strip().splitlines() if l.strip()]
                site = [l.strip() for l in tail if "/%s/" % PKG in l and "File" in l]
                raise Violation("exception", "rank %d of %d raised %s: %s at %s" % (
                    rk.r, self.size, type(e).__name__, str(e).splitlines()[0][:300] if str(e) else "",
                    site[-1] if site else tail[-2:]))
        if self.deadlock is not None:
            raise Violation("deadlock", "ranks stuck: %s" % (self.deadlock,))
        for rk in self.ranks:
            if rk.outcome is None or rk.outcome[0] != "ok":
                raise Violation("incomplete", "rank %d did not finish: %r" % (rk.r, rk.outcome and rk.outcome[0]))
        return [rk.outcome[1] for rk in self.ranks]


_tls = threading.local()


class Ctx:
    """What a scenario program sees."""

    def __init__(self, world, rk):
        self.world = world
        self.rk = rk
        self.rank = rk.r
        self.size = world.size
        self.ndev = world.ndev[rk.r]
        self.jVMC = None

    def load(self):
        self.jVMC = importlib.import_module(PKG)
        if self.world.device_mode == "select":
            import jax
            self.jVMC.set_pmap_devices(_JAX["devices"]()[:self.ndev])
        return self.jVMC

    def advance(self, dt):
        self.world.advance(dt)

    def phase(self, name):
        self.world.set_phase(self.rk, name)

    def yield_(self, where="user"):
        self.world.yield_point(where)

    @property
    def mpi(self):
        return self.jVMC.mpi_wrapper

    @property
    def comm(self):
        return sys.modules["mpi4py"].MPI.COMM_WORLD


# ---------------------------------------------------------------------- module seams
def _owned(name):
    return name == PKG or name.startswith(PKG + ".") or name in ("mpi4py", "mpi4py.MPI", "h5py", "time")


class _TimeModule(types.ModuleType):
    pass


def make_stub_modules(world, rk):
    from . import mpistub
    mods = {}
    mpi4py, MPI = mpistub.make(world, rk)
    mods["mpi4py"] = mpi4py
    mods["mpi4py.MPI"] = MPI

    t = _TimeModule("time")
    t.__dict__.update({k: v for k, v in _real_time.__dict__.items() if not k.startswith("__")})

    def clock():
        return world.now(rk.r)

    def sleep(dt):
        world.advance(dt)
        world.yield_point("sleep")
    for name in ("perf_counter", "time", "monotonic", "process_time"):
        setattr(t, name, clock)
    for name in ("perf_counter_ns", "time_ns", "monotonic_ns"):
        setattr(t, name, lambda: int(clock() * 1e9))
    t.sleep = sleep
    mods["time"] = t

    import h5py as real_h5py
    if world.disk is not None:
        from . import disk as diskmod
        mods["h5py"] = diskmod.make_h5py(world, rk)
    else:
        mods["h5py"] = real_h5py
    return mods


_JAX = {}


def _save_jax():
    import jax
    if not _JAX:
        _JAX["devices"] = jax.devices
        _JAX["local_devices"] = jax.local_devices
        _JAX["device_count"] = jax.device_count
        _JAX["local_device_count"] = jax.local_device_count
        _JAX["pmap"] = jax.pmap
    return dict(devices=jax.devices, local_devices=jax.local_devices, device_count=jax.device_count,
                local_device_count=jax.local_device_count, pmap=jax.pmap)


def _restore_jax(saved):
    import jax
    for k, v in saved.items():
        setattr(jax, k, v)


def _install_jax(world, rk):
    import jax
    devs = _JAX["devices"]()
    if world.device_mode == "visible":
        devs = devs[:world.ndev[rk.r]]
    jax.devices = lambda *a, **k: list(devs)
    jax.local_devices = lambda *a, **k: list(devs)
    jax.device_count = lambda *a, **k: len(devs)
    jax.local_device_count = lambda *a, **k: len(devs)
    if world.watch_devices:
        jax.pmap = make_pmap(world, _JAX["pmap"])
    else:
        jax.pmap = _JAX["pmap"]


def make_pmap(world, real_pmap):
    """Device seam: the k-th device computation of a rank can fail."""
    def pmap(fun, *a, **k):
        f = real_pmap(fun, *a, **k)

        def call(*args, **kw):
            if world.me() is not None:
                ft = world.seam("device", "pmap")
                if ft is not None:
                    world.raise_fault(ft)
            return f(*args, **kw)
        call.__wrapped__ = f
        return call
    return pmap
