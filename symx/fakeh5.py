"""In-memory stand-in for h5py whose datasets may have symbolic length and content.

Contract taken from h5py / HDF5: sorted iteration of names, numpy-like clipped slices with
positive steps, copy on read, error on shape mismatch when writing, resize keeps the old
prefix and zero-fills, numeric conversion on write truncates toward zero and clamps.
"""
from __future__ import annotations

from pathlib import Path

import numpy as np
import z3

from . import engine as E
from .arrays import (SymND, SymVec, as_vec, iexpr, mk_int, norm_slice, overlay, simp, wrap_np)
from .engine import SymInt, SymReal, ctx, is_sym, ite, s_int

FILES: dict = {}     # absolute path -> root group
OPEN_LOG: list = []  # (path, mode)
UNREADABLE: set = set()
SMALL = 64  # datasets of a fixed length up to this are handled element-wise


def reset():
    FILES.clear()
    OPEN_LOG.clear()
    UNREADABLE.clear()


def store_cast(x, dt):
    """conversion into the file's number type"""
    x = wrap_np(x)
    if dt.kind == "f":
        return E.s_float(x) if is_sym(x) else float(x)
    if dt.kind in "iu":
        lo = 0 if dt.kind == "u" else -(2 ** (8 * dt.itemsize - 1))
        hi = 2 ** (8 * dt.itemsize - (0 if dt.kind == "u" else 1)) - 1
        bits = 8 * dt.itemsize if dt.kind == "u" else None
        if not is_sym(x):
            return SymInt(z3.IntVal(min(max(int(x), lo), hi)), bits) if bits else min(
                max(int(x), lo), hi)
        e = s_int(x).e
        c = ctx()
        if c.implied(z3.And(e >= lo, e <= hi)):
            return SymInt(e, bits)
        return SymInt(z3.If(e < lo, z3.IntVal(lo), z3.If(e > hi, z3.IntVal(hi), e)), bits)
    return x


class Attrs:
    def __init__(self, d=None):
        self._d = {}
        self._maybe = {}
        for k, v in (d or {}).items():
            self[k] = v

    @staticmethod
    def _conv(v):
        if isinstance(v, (bool, np.bool_)) and not is_sym(v):
            return np.bool_(v)
        if type(v) is int:
            return np.int64(v)
        if type(v) is float:
            return np.float64(v)
        if is_sym(v) or isinstance(v, (str, np.generic)):
            return v
        if isinstance(v, (list, tuple)):
            return np.array(v)
        if v is None or isinstance(v, (dict, set)):
            raise TypeError(f"Object dtype dtype('O') has no native HDF5 equivalent: {v!r}")
        if hasattr(v, "value") and hasattr(v, "name"):  # enum
            return Attrs._conv(v.value)
        return v

    def __setitem__(self, k, v):
        self._maybe.pop(k, None)
        self._d[k] = self._conv(v)

    create = __setitem__

    def set_maybe(self, k, v, cond):
        """present iff cond (decided when somebody looks)"""
        self._d[k] = self._conv(v)
        self._maybe[k] = cond

    def _resolve(self, k=None):
        for q in ([k] if k is not None else list(self._maybe)):
            if q in self._maybe:
                c = self._maybe.pop(q)
                if not bool(c):
                    del self._d[q]

    def modify(self, k, v):
        self[k] = v

    def __getitem__(self, k):
        self._resolve(k)
        if k not in self._d:
            raise KeyError(f"Unable to synchronously open attribute (can't locate attribute: '{k}')")
        return self._d[k]

    def __delitem__(self, k):
        self._resolve(k)
        del self._d[k]

    def get(self, k, default=None):
        self._resolve(k)
        return self._d.get(k, default)

    def __contains__(self, k):
        self._resolve(k)
        return k in self._d

    def __iter__(self):
        self._resolve()
        return iter(sorted(self._d))

    def __len__(self):
        self._resolve()
        return len(self._d)

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self._d[k]) for k in self]

    def values(self):
        return [self._d[k] for k in self]

    def update(self, o):
        for k in o:
            self[k] = o[k]


class _Cache:
    def get_access_plist(self):
        return self

    def get_cache(self):
        return (0, 521, 1048576, 0.75)


class _Node:
    id = _Cache()

    def _file(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    @property
    def file(self):
        return self._file()


class Dataset(_Node):
    def __init__(self, name, data, dtype, parent=None, **k):
        self.name = name
        self.parent = parent
        self.dtype = np.dtype(dtype)
        self.vec = data
        self.attrs = Attrs()
        self.chunks = k.get("chunks")
        self.compression = k.get("compression")
        self.compression_opts = k.get("compression_opts")
        self.maxshape = k.get("maxshape")

    @property
    def shape(self):
        return self.vec.shape

    @property
    def size(self):
        return self.vec.size

    @property
    def ndim(self):
        return self.vec.ndim

    def __len__(self):
        return len(self.vec)

    def _sym_len(self):
        return self.vec.shape[0]

    def __iter__(self):
        return iter(self[:])

    def __getitem__(self, key):
        v = self.vec
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if key is Ellipsis or (isinstance(key, tuple) and not key):
            key = slice(None)
        if isinstance(key, slice):
            if key.step is not None and not is_sym(key.step) and key.step < 1:
                raise ValueError("Step must be >= 1")
            if isinstance(v, SymVec) and type(v.n) is int and v.n <= SMALL:
                return v.materialise()[key]
            return v[key].copy() if not isinstance(v, SymND) else v[key].copy()
        if is_sym(key) or isinstance(key, (int, np.integer)):
            if isinstance(v, SymVec):
                k, n = iexpr(key), iexpr(v.n)
                if ctx().branch(z3.Or(k >= n, k < -n)):
                    raise IndexError(f"Index out of range for (0-...)")
            return v[key]
        if isinstance(v, SymVec) and type(v.n) is int and v.n <= SMALL:
            v = v.materialise()
        return v[key]

    def __setitem__(self, key, val):
        if self._file().mode == "r":
            raise OSError("Can't write data (no write intent on file)")
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if key is Ellipsis:
            key = slice(None)
        v = self.vec
        dt = self.dtype
        if isinstance(v, SymVec):
            if isinstance(key, slice):
                a, n, step = norm_slice(key, v.n)
                if is_sym(step) or step != 1:
                    raise E.Unsupported("strided dataset write")
                if isinstance(val, Dataset):
                    val = val[:]
                fn = overlay(v.fn, v.start, a, n, val, dt, err=TypeError, cast=store_cast)
                self.vec = SymVec(v.n, fn, start=v.start, dtype=dt)
                return
            k, n = iexpr(key), iexpr(v.n)
            if ctx().branch(z3.Or(k >= n, k < -n)):
                raise IndexError("Index out of range")
            new = SymVec(v.n, v.fn, start=v.start, dtype=dt)
            c = store_cast(val, dt)
            base, st = v.fn, iexpr(v.start)
            kk = simp(z3.If(k < 0, k + n, k))
            new.fn = lambda i: ite(E.SymBool(i == kk + st), c, base(i))
            self.vec = new
            return
        self.vec[key] = val

    def resize(self, size, axis=None):
        if isinstance(size, (tuple, list)):
            size = size[0]
        v = self.vec
        if is_sym(size):
            if ctx().branch(size.e < 0):
                raise ValueError("negative size")
        elif type(size) is SymReal or isinstance(size, float):
            raise TypeError("size must be int")
        old = iexpr(v.n)
        base, st = v.fn, iexpr(v.start)
        zero = SymInt(z3.IntVal(0), 64 if self.dtype.kind == "u" else None)
        if self.dtype.kind == "f":
            zero = 0.0

        def fn(i):
            c = simp(i < old + st)
            if z3.is_true(c):
                return base(i)
            if z3.is_false(c):
                return zero
            return ite(E.SymBool(c), base(i), zero)

        if not ctx().implied(iexpr(size) <= old):
            self.vec = SymVec(size, fn, start=v.start, dtype=self.dtype)
        else:
            self.vec = SymVec(size, base, start=v.start, dtype=self.dtype)

    def astype(self, t):
        return self.vec.astype(t)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.vec)


class Group(_Node):
    def __init__(self, name="/", parent=None):
        self.name = name
        self.parent = parent
        self.attrs = Attrs()
        self._k = {}
        self._maybe = {}

    def set_maybe(self, key, cond):
        self._maybe[key] = cond

    def _resolve(self, k=None):
        for q in ([k] if k is not None else list(self._maybe)):
            if q in self._maybe:
                c = self._maybe.pop(q)
                if not bool(c):
                    del self._k[q]

    def _path(self, key):
        return (self.name.rstrip("/") + "/" + key) if self.name else key

    def create_group(self, key):
        if key in self._k:
            raise ValueError("Unable to create group (name already exists)")
        g = Group(self._path(key), self)
        self._k[key] = g
        return g

    def require_group(self, key):
        return self._k[key] if key in self._k else self.create_group(key)

    def create_dataset(self, key, shape=None, dtype=None, data=None, **k):
        if key in self._k:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is None:
            if isinstance(shape, int) or is_sym(shape):
                shape = (shape,)
            dt = np.dtype(dtype or "f4")
            zero = SymInt(z3.IntVal(0), 8 * dt.itemsize) if dt.kind == "u" else (
                0.0 if dt.kind == "f" else 0)
            vec = SymVec(shape[0], lambda _i: zero, dtype=dt)
        else:
            if isinstance(data, SymND) and data.ndim > 1:
                vec, dt = data, np.dtype(dtype or "f8")
            else:
                v = as_vec(data)
                dt = np.dtype(dtype) if dtype is not None else v.dtype
                vec = v.map(lambda x: store_cast(x, dt), dtype=dt)
        ds = Dataset(self._path(key), vec, dt, self, **k)
        self._k[key] = ds
        return ds

    def require_dataset(self, key, *a, **k):
        return self._k[key] if key in self._k else self.create_dataset(key, *a, **k)

    def _find(self, key):
        n = self
        for part in key.strip("/").split("/"):
            if isinstance(n, Group):
                n._resolve(part)
            if not isinstance(n, Group) or part not in n._k:
                return None
            n = n._k[part]
        return n

    def __getitem__(self, key):
        n = self._find(key)
        if n is None:
            raise KeyError(f"Unable to synchronously open object (object '{key}' doesn't exist)")
        return n

    def get(self, key, default=None):
        n = self._find(key)
        return default if n is None else n

    def __delitem__(self, key):
        del self._k[key]

    def __contains__(self, key):
        return isinstance(key, str) and self._find(key) is not None

    def __iter__(self):
        self._resolve()
        return iter(sorted(self._k))

    def __len__(self):
        self._resolve()
        return len(self._k)

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self._k[k]) for k in self]

    def values(self):
        return [self._k[k] for k in self]

    def copy(self, src, dest, name=None):
        raise E.Unsupported("h5 copy")


class File(Group):
    def __init__(self, path=None, mode="r", **_k):
        p = str(Path(path).resolve()) if path is not None else None
        super().__init__("/", None)
        self.filename = p
        self.mode = "r" if mode == "r" else "r+"
        self._open = True
        OPEN_LOG.append((p, mode))
        if mode in ("r", "r+", "a") and p in FILES and p not in UNREADABLE:
            root = FILES[p]
            self.attrs, self._k, self._maybe = root.attrs, root._k, root._maybe
            for n in self._k.values():
                n.parent = self
            return
        if mode in ("r", "r+") or p in UNREADABLE:
            if p is None or not Path(p).exists():
                raise FileNotFoundError(2, "Unable to synchronously open file", str(p))
            raise OSError("Unable to synchronously open file (file signature not found)")
        if mode in ("w-", "x") and (p in FILES or Path(p).exists()):
            raise FileExistsError("Unable to synchronously create file")
        FILES[p] = self
        Path(p).write_bytes(b"fakeh5")

    def flush(self):
        pass

    def close(self):
        self._open = False

    def __bool__(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        self.close()


class H5:
    """takes the place of the h5py module"""

    File, Group, Dataset = File, Group, Dataset

    @staticmethod
    def is_hdf5(p):
        return str(Path(p).resolve()) in FILES

    class version:
        version = "fake"


def register(path, root: File | None = None):
    """create an empty existing file (returns the root to be filled by the harness)"""
    p = str(Path(path).resolve())
    Path(p).write_bytes(b"fakeh5")
    f = File.__new__(File)
    Group.__init__(f, "/", None)
    f.filename, f.mode, f._open = p, "r+", True
    FILES[p] = f
    return f
