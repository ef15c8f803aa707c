"""Simulated storage under the real HDF5 library.

``h5py.File`` is opened on a Python file object whose bytes live in this module:
every write HDF5 issues is appended to a journal, so the disk image after a crash
at any point - in particular in the middle of a flush - can be rebuilt.  Faults
(errors, interrupts, kills) are injected at each storage operation: opening,
creating groups / datasets, resizing, assigning, and at low-level writes.
Files are also mirrored to a scratch directory, so that code asking the operating
system about the path sees what a real run would see.
"""

import os
import types

import h5py as real
import numpy as np


class SimFile:
    """One file: its bytes and the journal of writes."""

    def __init__(self):
        self.data = bytearray()
        self.journal = []           # ("w", offset, bytes) | ("t", size)
        self.opens = []             # journal positions at which a handle was opened / closed

    def clone_at(self, n):
        f = SimFile()
        for op in self.journal[:n]:
            f.apply(op)
        f.journal = list(self.journal[:n])
        return f

    def apply(self, op):
        if op[0] == "w":
            _, off, b = op
            if len(self.data) < off:
                self.data.extend(b"\0" * (off - len(self.data)))
            self.data[off:off + len(b)] = b
        else:
            size = op[1]
            if size < len(self.data):
                del self.data[size:]
            else:
                self.data.extend(b"\0" * (size - len(self.data)))


class Disk:
    """Durable state that survives from one simulated job to the next."""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.frozen = False
        self.ops = []               # (rank, op, path) per job

    def freeze(self):
        self.frozen = True

    def crash_image(self, cut=None):
        """The disk as the next job finds it.  ``cut`` = {path: journal length}."""
        d = Disk(self.root)
        for p, f in self.files.items():
            n = len(f.journal) if cut is None or p not in cut else cut[p]
            d.files[p] = f.clone_at(n)
            d.mirror(p)
        return d

    def mirror(self, p):
        with open(p, "wb") as fh:
            fh.write(bytes(self.files[p].data))

    def path(self, fn):
        fn = os.fspath(fn)
        return os.path.normpath(os.path.join(self.root, fn))

    # read-only view for oracles
    def read(self, fn):
        import io
        f = self.files.get(self.path(fn))
        if f is None:
            raise FileNotFoundError(fn)
        return real.File(io.BytesIO(bytes(f.data)), "r")


class Handle:
    """File object handed to HDF5's file-object driver."""

    def __init__(self, disk, f, path, world, rank):
        self.disk, self.f, self.path, self.world, self.rank = disk, f, path, world, rank
        self.pos = 0
        self.failing = None

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.f.data) + off)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = len(b)
        d = bytes(self.f.data[self.pos:self.pos + n])
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def read(self, n=-1):
        d = bytes(self.f.data[self.pos:] if n < 0 else self.f.data[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def write(self, b):
        b = bytes(b)
        op = ("w", self.pos, b)
        if not self.disk.frozen:
            self.f.apply(op)
            self.f.journal.append(op)
        self.pos += len(b)
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if not self.disk.frozen:
            op = ("t", size)
            self.f.apply(op)
            self.f.journal.append(op)
        return size

    def flush(self):
        pass


def make_h5py(world, rk):
    """Per-rank h5py module whose File / Group / Dataset pass through the storage seam."""
    disk = world.disk
    mod = types.ModuleType("h5py")
    mod.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def op(name, path=""):
        if disk.frozen:
            return
        disk.ops.append((rk.r, name, path))
        world.log(rk.r, "disk", name)
        ft = world.seam("disk", name)
        if ft is not None:
            world.raise_fault(ft)

    class Dataset:
        def __init__(self, d):
            object.__setattr__(self, "_d", d)

        def resize(self, *a, **k):
            op("resize", self._d.name)
            return self._d.resize(*a, **k)

        def __setitem__(self, i, v):
            op("write", self._d.name)
            self._d[i] = v

        def __getitem__(self, i):
            return self._d[i]

        def write_direct(self, *a, **k):
            op("write", self._d.name)
            return self._d.write_direct(*a, **k)

        def __len__(self):
            return len(self._d)

        def __array__(self, dtype=None, copy=None):
            return np.array(self._d, dtype=dtype)

        def __iter__(self):
            return iter(self._d)

        def __getattr__(self, n):
            return getattr(self._d, n)

    class Group:
        def __init__(self, g):
            object.__setattr__(self, "_g", g)

        def _wrap(self, x):
            if isinstance(x, real.Dataset):
                return Dataset(x)
            if isinstance(x, real.Group):
                return Group(x)
            return x

        def __contains__(self, k):
            return k in self._g

        def __getitem__(self, k):
            return self._wrap(self._g[k])

        def __setitem__(self, k, v):
            op("create", str(k))
            self._g[k] = v._d if isinstance(v, Dataset) else v

        def __delitem__(self, k):
            op("delete", str(k))
            del self._g[k]

        def __iter__(self):
            return iter(self._g)

        def __len__(self):
            return len(self._g)

        def get(self, k, default=None, **kw):
            r = self._g.get(k, default, **kw)
            return self._wrap(r)

        def create_group(self, k, *a, **kw):
            op("create_group", str(k))
            return self._wrap(self._g.create_group(k, *a, **kw))

        def require_group(self, k):
            if k not in self._g:
                op("create_group", str(k))
            return self._wrap(self._g.require_group(k))

        def create_dataset(self, k, *a, **kw):
            op("create_dataset", str(k))
            return self._wrap(self._g.create_dataset(k, *a, **kw))

        def require_dataset(self, k, *a, **kw):
            if k not in self._g:
                op("create_dataset", str(k))
            return self._wrap(self._g.require_dataset(k, *a, **kw))

        def keys(self):
            return self._g.keys()

        def items(self):
            return [(k, self._wrap(v)) for k, v in self._g.items()]

        def values(self):
            return [self._wrap(v) for v in self._g.values()]

        def visititems(self, fn):
            return self._g.visititems(lambda k, x: fn(k, self._wrap(x)))

        @property
        def file(self):
            return self if isinstance(self, File) else getattr(self, "_file", self._g.file)

        @property
        def parent(self):
            return self._wrap(self._g.parent)

        def __getattr__(self, n):
            return getattr(self._g, n)

    class File(Group):
        def __init__(self, name, mode="r", **kw):
            if not isinstance(name, (str, bytes, os.PathLike)):
                raise TypeError("simulated h5py.File: unexpected file %r" % (name,))
            p = disk.path(name)
            op("open:" + mode, p)
            world.yield_point("open " + mode)
            f = disk.files.get(p)
            if mode in ("r", "r+") and f is None:
                raise FileNotFoundError(2, "Unable to open file (no such file)", p)
            if mode in ("w-", "x") and f is not None:
                raise FileExistsError(17, "Unable to create file (file exists)", p)
            key = p
            users = world.open_files.setdefault(key, [])
            if users and (mode != "r" or any(m != "r" for _, m in users)):
                world.problems.append(("concurrent-open", "rank %d opens %s with mode %s while rank(s) %s have it open"
                                       % (rk.r, os.path.basename(p), mode, users)))
            if f is None:
                f = SimFile()
                if not disk.frozen:
                    disk.files[p] = f
                mode2 = "w"
            elif mode == "w":
                mode2 = "w"
            else:
                mode2 = mode
            if mode2 == "a":
                mode2 = "r+"
            h = Handle(disk, f, p, world, rk.r)
            kw.pop("locking", None)
            kw.pop("driver", None)
            kw.pop("comm", None)
            kw.pop("libver", None)
            if mode2 == "w" and len(f.data):
                h.truncate(0)
            rf = real.File(h, mode2, **kw)
            object.__setattr__(self, "_g", rf)
            object.__setattr__(self, "_p", p)
            object.__setattr__(self, "_u", (rk.r, mode))
            object.__setattr__(self, "_open", True)
            object.__setattr__(self, "_f", f)
            object.__setattr__(self, "_h", h)
            users.append(self._u)

        def __bool__(self):
            return bool(self._g)

        def flush(self):
            op("flush", self._p)
            self._g.flush()

        def close(self):
            if not self._open:
                return
            object.__setattr__(self, "_open", False)
            n0 = len(self._f.journal)
            try:
                self._g.close()
            finally:
                world.open_files[self._p].remove(self._u)
                if self._u[1] != "r" and not disk.frozen:
                    self._f.opens.append((n0, len(self._f.journal)))
                    disk.mirror(self._p)
            if not disk.frozen:
                op("close", self._p)
                world.yield_point("close")

        def __enter__(self):
            return self

        def __exit__(self, et, ev, tb):
            if et is not None:
                # an error is already on its way: closing still happens (as in h5py), but no
                # second fault is injected
                object.__setattr__(self, "_open", False)
                n0 = len(self._f.journal)
                try:
                    self._g.close()
                finally:
                    world.open_files[self._p].remove(self._u)
                    if self._u[1] != "r" and not disk.frozen:
                        self._f.opens.append((n0, len(self._f.journal)))
                        disk.mirror(self._p)
                return False
            self.close()
            return False

    mod.File = File
    mod.Group = Group
    mod.Dataset = Dataset
    return mod
