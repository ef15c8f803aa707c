"""Stand-in for mpi4py: the collective and point-to-point operations of one
communicator, executed by the simulator.

Collectives are matched by order (the i-th collective of every rank on a
communicator is the same operation), as MPI requires.  What MPI leaves open is
drawn from the seed: the order in which contributions are reduced, whether a
broadcasting or contributing rank may run ahead of the others (eager) or must
wait for them (synchronous), latencies, stalls.  What MPI forbids (different
operations, roots, counts or types on different ranks) is reported.
"""

import pickle
import types

import numpy as np

from .world import SimError, SimMPIException


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return self.name


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", np.maximum)
MIN = Op("MIN", np.minimum)
LAND = Op("LAND", np.logical_and)
LOR = Op("LOR", np.logical_or)
IN_PLACE = object()


class Datatype:
    def __init__(self, name, dt):
        self.name, self.dt = name, (np.dtype(dt) if dt is not None else None)

    def Get_size(self):
        return self.dt.itemsize

    @property
    def size(self):
        return self.dt.itemsize


TYPES = {
    "DOUBLE": np.float64, "FLOAT": np.float32, "INT": np.int32, "LONG": np.int64, "LONG_LONG": np.int64,
    "INT64_T": np.int64, "INT32_T": np.int32, "DOUBLE_COMPLEX": np.complex128, "COMPLEX": np.complex64,
    "C_DOUBLE_COMPLEX": np.complex128, "BOOL": np.bool_, "BYTE": np.uint8, "C_FLOAT_COMPLEX": np.complex64,
    "CHAR": np.int8, "UINT64_T": np.uint64, "UNSIGNED": np.uint32,
}
TYPES = {k: Datatype(k, v) for k, v in TYPES.items()}


def _parse(buf, writable=False):
    """mpi4py buffer specification -> (flat numpy view, count, dtype)"""
    count = None
    dt = None
    arr = buf
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        for x in buf[1:]:
            if isinstance(x, Datatype):
                dt = x.dt
            elif isinstance(x, str):
                dt = np.dtype(x)
            elif x is None:
                pass
            elif isinstance(x, (tuple, list)):
                count = int(x[0])
            else:
                count = int(x)
    if writable:
        if not isinstance(arr, np.ndarray):
            raise SimError("receive buffer is not a numpy array: %r" % type(arr))
        if not arr.flags.writeable:
            raise SimError("receive buffer is read-only")
        a = arr
    else:
        a = np.asarray(arr)
    if a.dtype == object:
        raise SimError("object array used as message buffer")
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise SimError("message buffer is not contiguous")
    flat = a.reshape(-1) if a.flags.c_contiguous else a.T.reshape(-1)
    if dt is not None and dt != flat.dtype:
        flat = flat.view(dt)
    if count is None:
        count = flat.size
    if count > flat.size:
        raise SimError("message buffer shorter than count")
    return flat[:count], count, flat.dtype


def _poison(flat):
    if flat.dtype.kind == "f":
        flat[...] = np.nan
    elif flat.dtype.kind == "c":
        flat[...] = np.nan + 1j * np.nan
    elif flat.dtype.kind in "iu":
        flat[...] = np.iinfo(flat.dtype).max // 3


def _copy(obj):
    return pickle.loads(pickle.dumps(obj, protocol=4))


class Slot:
    def __init__(self, kind, sig):
        self.kind = kind
        self.sig = sig
        self.data = {}
        self.arrive = {}
        self.lat = None
        self.order = None
        self.eager = None
        self.result = None
        self.left = 0


class Comm:
    def __init__(self, world, rk, ident="world", members=None):
        self._w = world
        self._rk = rk
        self._id = ident
        self._members = list(members) if members is not None else list(range(world.size))
        self._dups = 0

    # identity ---------------------------------------------------------------
    def Get_rank(self):
        return self._members.index(self._rk.r)

    def Get_size(self):
        return len(self._members)

    rank = property(Get_rank)
    size = property(Get_size)
    name = property(lambda self: self._id)

    def Get_name(self):
        return self._id

    def Abort(self, errorcode=0):
        self._w.problems.append(("abort", "rank %d called Abort(%s)" % (self._rk.r, errorcode)))
        self._w.kill_all()
        self._w.yield_point("abort")

    # core -------------------------------------------------------------------
    def _coll(self, kind, sig, payload, need):
        """need(slot, myrank) -> predicate telling when this rank may leave."""
        w, rk = self._w, self._rk
        ft = w.seam("collective", kind)
        if ft is not None:
            w.raise_fault(ft)
        w.yield_point("before %s" % kind)
        seq = rk.coll_seq.get(self._id, 0)
        rk.coll_seq[self._id] = seq + 1
        me = self.Get_rank()
        key = (self._id, seq)
        slot = w.slots.get(key)
        w.log(rk.r, kind, "%d %s" % (seq, sig))
        if slot is None:
            slot = w.slots[key] = Slot(kind, sig)
            n = len(self._members)
            slot.lat = w.lat_rng.uniform(*w.net.get("latency", (1e-4, 1e-2)))
            slot.order = list(range(n))
            if w.net.get("shuffle", True):
                w.lat_rng.shuffle(slot.order)
            slot.eager = w.lat_rng.random() < w.net.get("eager", 0.5)
            w.coll_log.append((kind, seq))
        else:
            if slot.kind != kind:
                msg = "collective #%d: rank %d calls %s while another rank calls %s" % (seq, rk.r, kind, slot.kind)
                w.problems.append(("mismatch", msg))
                w.aborting = True
                raise SimError(msg)
            if slot.sig != sig:
                msg = "collective #%d (%s): rank %d uses %s while another rank uses %s" % (seq, kind, rk.r, sig, slot.sig)
                w.problems.append(("mismatch", msg))
                w.aborting = True
                raise SimError(msg)
        slot.data[me] = payload
        slot.arrive[me] = rk.local
        t_in = rk.local
        pred = need(slot, me)
        if not pred():
            w.probe("waited_in_collective")
        w.block_until(pred, "in %s #%d" % (kind, seq))
        deps = slot.arrive if len(slot.arrive) == len(self._members) else {me: t_in}
        rk.local = max(max(deps.values()), t_in) + slot.lat
        stall = w.net.get("stall")
        if stall and w.lat_rng.random() < stall:
            rk.local += w.lat_rng.uniform(1.0, 100.0)
            w.count_fault("stall")
        if kind in ("Allreduce", "allreduce"):
            w.comm_time[rk.r] += rk.local - t_in
        return slot, me

    def _leave(self, kind):
        self._w.yield_point("after %s" % kind)

    def _all(self, slot, me):
        return lambda: len(slot.data) == len(self._members)

    def _root_or_all(self, root):
        def need(slot, me):
            n = len(self._members)
            if me == root:
                return (lambda: True) if slot.eager else (lambda: len(slot.data) == n)
            return lambda: root in slot.data
        return need

    def _to_root(self, root):
        def need(slot, me):
            n = len(self._members)
            if me == root or not slot.eager:
                return lambda: len(slot.data) == n
            return lambda: True
        return need

    def _reduce(self, slot, op):
        if slot.result is None:
            vals = [slot.data[i] for i in slot.order]
            acc = vals[0]
            acc = acc.copy() if isinstance(acc, np.ndarray) else acc
            for v in vals[1:]:
                acc = op(acc, v)
            slot.result = acc
        return slot.result

    # collectives, buffers -------------------------------------------------------
    def Barrier(self):
        self._coll("Barrier", "", None, self._all)
        self._leave("Barrier")

    barrier = Barrier

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        rflat, rc, rdt = _parse(recvbuf, writable=True)
        if sendbuf is IN_PLACE:
            sflat, sc, sdt = rflat.copy(), rc, rdt
        else:
            sflat, sc, sdt = _parse(sendbuf)
            if np.shares_memory(sflat, rflat):
                raise SimError("Allreduce: send and receive buffers are aliased")
            sflat = sflat.copy()
            if sdt != rdt or sc != rc:
                raise SimError("Allreduce: send buffer (%d x %s) and receive buffer (%d x %s) differ" % (sc, sdt, rc, rdt))
            _poison(rflat)
        slot, me = self._coll("Allreduce", "%d x %s %s" % (sc, sdt, op), sflat, self._all)
        rflat[...] = self._reduce(slot, op)
        self._leave("Allreduce")

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if sendbuf is IN_PLACE:
            sflat, sc, sdt = _parse(recvbuf)
        else:
            sflat, sc, sdt = _parse(sendbuf)
        slot, me = self._coll("Reduce", "%d x %s %s root %d" % (sc, sdt, op, root), sflat.copy(), self._to_root(root))
        if me == root:
            rflat, rc, rdt = _parse(recvbuf, writable=True)
            rflat[...] = self._reduce(slot, op)
        self._leave("Reduce")

    def Bcast(self, buf, root=0):
        me = self.Get_rank()
        flat, c, dt = _parse(buf, writable=(me != root))
        data = flat.copy() if me == root else None
        if me != root:
            _poison(flat)
        slot, me = self._coll("Bcast", "%d x %s root %d" % (c, dt, root), data, self._root_or_all(root))
        if me != root:
            flat[...] = slot.data[root]
        self._leave("Bcast")

    def Allgather(self, sendbuf, recvbuf):
        rflat, rc, rdt = _parse(recvbuf, writable=True)
        n = len(self._members)
        if sendbuf is IN_PLACE:
            m = rc // n
            sflat = rflat[self.Get_rank() * m:(self.Get_rank() + 1) * m].copy()
            sc, sdt = m, rdt
        else:
            sflat, sc, sdt = _parse(sendbuf)
            sflat = sflat.copy()
        if sc * n > rc or sdt != rdt:
            raise SimError("Allgather: receive buffer (%d x %s) does not fit %d x (%d x %s)" % (rc, rdt, n, sc, sdt))
        slot, me = self._coll("Allgather", "%d x %s" % (sc, sdt), sflat, self._all)
        rflat[:n * sc] = np.concatenate([slot.data[i] for i in range(n)])
        self._leave("Allgather")

    def Allgatherv(self, sendbuf, recvbuf):
        sflat, sc, sdt = _parse(sendbuf)
        arr = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
        counts = None
        displs = None
        if isinstance(recvbuf, (list, tuple)) and len(recvbuf) > 1:
            c = recvbuf[1]
            if isinstance(c, (tuple, list)) and len(c) == 2 and hasattr(c[0], "__len__"):
                counts, displs = c
            else:
                counts = c
                if len(recvbuf) > 2 and hasattr(recvbuf[2], "__len__"):
                    displs = recvbuf[2]
        rflat, rc, rdt = _parse(arr, writable=True)
        slot, me = self._coll("Allgatherv", "%s" % sdt, sflat.copy(), self._all)
        n = len(self._members)
        if counts is None:
            counts = [slot.data[i].size for i in range(n)]
        if displs is None:
            displs = np.concatenate([[0], np.cumsum(counts)[:-1]])
        for i in range(n):
            if slot.data[i].size > counts[i]:
                raise SimError("Allgatherv: message truncated")
            rflat[int(displs[i]):int(displs[i]) + slot.data[i].size] = slot.data[i]
        self._leave("Allgatherv")

    def Gather(self, sendbuf, recvbuf, root=0):
        sflat, sc, sdt = _parse(sendbuf)
        slot, me = self._coll("Gather", "%d x %s root %d" % (sc, sdt, root), sflat.copy(), self._to_root(root))
        if me == root:
            rflat, rc, rdt = _parse(recvbuf, writable=True)
            rflat[:sc * self.size] = np.concatenate([slot.data[i] for i in range(self.size)])
        self._leave("Gather")

    def Scatter(self, sendbuf, recvbuf, root=0):
        me = self.Get_rank()
        rflat, rc, rdt = _parse(recvbuf, writable=True)
        data = _parse(sendbuf)[0].copy() if me == root else None
        slot, me = self._coll("Scatter", "%d x %s root %d" % (rc, rdt, root), data, self._root_or_all(root))
        rflat[...] = slot.data[root][me * rc:(me + 1) * rc]
        self._leave("Scatter")

    # collectives, objects -------------------------------------------------------
    def bcast(self, obj=None, root=0):
        me = self.Get_rank()
        slot, me = self._coll("bcast", "root %d" % root, _copy(obj) if me == root else None, self._root_or_all(root))
        res = obj if me == root else _copy(slot.data[root])
        self._leave("bcast")
        return res

    def allgather(self, sendobj):
        slot, me = self._coll("allgather", "", _copy(sendobj), self._all)
        res = [_copy(slot.data[i]) for i in range(self.size)]
        self._leave("allgather")
        return res

    def gather(self, sendobj, root=0):
        slot, me = self._coll("gather", "root %d" % root, _copy(sendobj), self._to_root(root))
        res = [_copy(slot.data[i]) for i in range(self.size)] if me == root else None
        self._leave("gather")
        return res

    def scatter(self, sendobj=None, root=0):
        me = self.Get_rank()
        slot, me = self._coll("scatter", "root %d" % root, [_copy(x) for x in sendobj] if me == root else None,
                              self._root_or_all(root))
        res = slot.data[root][me]
        self._leave("scatter")
        return res

    def allreduce(self, sendobj, op=SUM):
        slot, me = self._coll("allreduce", "%s" % op, _copy(sendobj), self._all)
        res = _copy(self._reduce(slot, op))
        self._leave("allreduce")
        return res

    def reduce(self, sendobj, op=SUM, root=0):
        slot, me = self._coll("reduce", "%s root %d" % (op, root), _copy(sendobj), self._to_root(root))
        res = _copy(self._reduce(slot, op)) if me == root else None
        self._leave("reduce")
        return res

    def alltoall(self, sendobj):
        slot, me = self._coll("alltoall", "", [_copy(x) for x in sendobj], self._all)
        res = [_copy(slot.data[i][me]) for i in range(self.size)]
        self._leave("alltoall")
        return res

    def Dup(self, info=None):
        self._dups += 1
        return Comm(self._w, self._rk, "%s.dup%d" % (self._id, self._dups), self._members)

    def Split(self, color=0, key=0):
        got = self.allgather((color, key, self._rk.r))
        self._dups += 1
        mem = [r for c, k, r in sorted(((c, k, r) for c, k, r in got if c == color), key=lambda x: (x[1], x[2]))]
        return Comm(self._w, self._rk, "%s.split%d.%s" % (self._id, self._dups, color), mem)

    def Free(self):
        pass

    # point to point ---------------------------------------------------------------
    def _box(self, src, dst, tag):
        return self._w.mail.setdefault((self._id, src, dst, tag), [])

    def send(self, obj, dest, tag=0):
        w = self._w
        w.yield_point("before send")
        w.log(self._rk.r, "send", "%d %d" % (dest, tag))
        item = [_copy(obj), self._rk.local + w.lat_rng.uniform(1e-4, 1e-2), False]
        self._box(self.Get_rank(), dest, tag).append(item)
        if w.lat_rng.random() >= w.net.get("eager", 0.5):
            w.block_until(lambda: item[2], "in send")
        w.yield_point("after send")

    ssend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w = self._w
        w.yield_point("before recv")
        me = self.Get_rank()

        def find():
            for (cid, s, d, t), box in sorted(w.mail.items()):
                if cid == self._id and d == me and box and (source in (-1, s)) and (tag in (-1, t)):
                    return box
            return None
        w.block_until(lambda: find() is not None, "in recv")
        item = find().pop(0)
        item[2] = True
        self._rk.local = max(self._rk.local, item[1])
        w.log(self._rk.r, "recv", "%d %d" % (source, tag))
        w.yield_point("after recv")
        return item[0]

    def Send(self, buf, dest, tag=0):
        self.send(_parse(buf)[0].copy(), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        flat, c, dt = _parse(buf, writable=True)
        data = self.recv(source=source, tag=tag)
        if data.size > c:
            raise SimError("Recv: message truncated")
        flat[:data.size] = data

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        item = [_copy(sendobj), self._rk.local, False]
        self._box(self.Get_rank(), dest, sendtag).append(item)
        return self.recv(source=source, tag=recvtag)


def make(world, rk):
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm(world, rk)
    MPI.COMM_SELF = Comm(world, rk, "self%d" % rk.r, [rk.r])
    MPI.SUM, MPI.PROD, MPI.MAX, MPI.MIN, MPI.LAND, MPI.LOR = SUM, PROD, MAX, MIN, LAND, LOR
    MPI.IN_PLACE = IN_PLACE
    MPI.ANY_SOURCE = MPI.ANY_TAG = -1
    MPI.Comm = MPI.Intracomm = Comm
    MPI.Op = Op
    MPI.Datatype = Datatype
    MPI.Exception = SimMPIException
    for k, v in TYPES.items():
        setattr(MPI, k, v)
    MPI.Wtime = lambda: world.now(rk.r)
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Get_processor_name = lambda: "node%d" % rk.r
    MPI.Finalize = lambda: None
    mpi4py = types.ModuleType("mpi4py")
    mpi4py.MPI = MPI
    mpi4py.__path__ = []
    mpi4py.__version__ = "4.1.2"
    return mpi4py, MPI
