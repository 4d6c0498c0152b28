"""Harness API.  The same harness function runs symbolically (SymSX) and concretely (ConSX)."""
from __future__ import annotations

import math
import os
import random
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path


class Abort(BaseException):
    """concrete mode: an assumption does not hold (e.g. after rounding a model to doubles)"""


class HarnessGap(BaseException):
    """the harness can not reach the code it needs (renamed internals); never a violation"""


class _Base:
    def __init__(self):
        self.tmp = None
        self.obs = []
        self.covered = set()

    def tmpdir(self) -> Path:
        if self.tmp is None:
            self.tmp = Path(tempfile.mkdtemp(prefix="symx_"))
        return self.tmp

    def cleanup(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def cover(self, label):
        self.covered.add(label)

    def need(self, obj, *names):
        for n in names:
            if hasattr(obj, n):
                return getattr(obj, n)
        raise HarnessGap(f"{obj} has none of {names}")

    def attempt(self, fn, *excs):
        """(True, value) or (False, exception) for one of the expected exception types"""
        try:
            return True, fn()
        except excs as x:
            return False, x


class SymSX(_Base):
    sym = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng
        self.candidates = []
        self.n_checks = 0
        self.vecs = {}

    # -- inputs
    def _reg(self, name, kind, expr):
        if name in self.e.inputs:
            raise RuntimeError(f"input {name} declared twice")
        self.e.inputs[name] = (kind, expr)

    def int(self, name, lo=None, hi=None, bits=None):
        import z3
        from .engine import SymInt
        x = z3.Int(name)
        self._reg(name, "int", x)
        if lo is not None:
            self.assume(SymInt(x) >= lo)
        if hi is not None:
            self.assume(SymInt(x) <= hi)
        return SymInt(x, bits)

    def real(self, name, lo=None, hi=None):
        import z3
        from .engine import SymReal
        x = z3.Real(name)
        self._reg(name, "real", x)
        if lo is not None:
            self.assume(SymReal(x) >= lo)
        if hi is not None:
            self.assume(SymReal(x) <= hi)
        return SymReal(x)

    def bool(self, name):
        import z3
        from .engine import SymBool
        x = z3.Bool(name)
        self._reg(name, "bool", x)
        return SymBool(x)

    def choice(self, name, opts):
        opts = list(opts)
        i = self.int(name, 0, len(opts) - 1)
        for k in range(len(opts) - 1):
            if bool(i == k):
                return opts[k]
        return opts[-1]

    def flag(self, name):
        """a boolean input the harness branches on"""
        return bool(self.bool(name))

    def vec(self, name, n, lo=0, hi=1, kind="int", dtype="u4"):
        import numpy as np
        import z3
        from .arrays import SymVec
        from .engine import SymInt, SymReal
        isint = kind == "int"
        f = z3.Function(name, z3.IntSort(), z3.IntSort() if isint else z3.RealSort())
        idx = []
        self.vecs[name] = (f, n, idx, kind, lo, hi)
        self.e.inputs[name] = ("vec", None)
        dt = np.dtype(dtype)
        bits = dt.itemsize * 8 if dt.kind == "u" else None
        seen = set()

        def fn(i):
            i = z3.simplify(i)
            v = f(i)
            if i.get_id() not in seen:
                seen.add(i.get_id())
                idx.append(i)
                if lo is not None:
                    cl = v >= lo if isint else v >= SymReal_const(lo)
                    ch = v <= hi if isint else v <= SymReal_const(hi)
                    self.e.assume(z3.And(cl, ch))
            return SymInt(v, bits) if isint else SymReal(v)

        r = SymVec(n, fn, dtype=dt, name=name)
        return r

    def array(self, name, n, lo, hi, kind="int", dtype="f8"):
        """concrete number of symbolic elements, as a 1D array"""
        from .arrays import nd
        items = [self.int(f"{name}_{i}", lo, hi) if kind == "int" else
                 self.real(f"{name}_{i}", lo, hi) for i in range(n)]
        return nd(items, shape=(n,), kind=dtype)

    # -- control
    def assume(self, c):
        self.e.assume(c)

    def is_true(self, c):
        return bool(c)

    # -- checks
    def check(self, label, cond, strong=None, detail=None):
        from .engine import is_sym, SymBool
        import numpy as np
        self.n_checks += 1
        if type(cond) is not SymBool and not isinstance(cond, (bool, np.bool_)) and not is_sym(cond):
            cond = bool(cond)
        ms = self.e.prove(cond, strong)
        if ms:
            self.candidates.append((label, [self.model_values(m) for m in ms]))

    def check_close(self, label, a, b, tol):
        from .engine import is_sym
        if not any(is_sym(x) for x in (a, b, tol)):
            return self.check(label, abs(a - b) <= tol)
        d = abs(a - b)
        c = d <= tol
        self.check(label, c, strong=[d > 2 * tol, d > 1.5 * tol])
        return None

    def check_exact(self, label, a, b, tol):
        """equal over the reals; replayed in doubles within tol"""
        from .engine import is_sym
        if not any(is_sym(x) for x in (a, b)):
            return self.check(label, abs(a - b) <= tol)
        d = abs(a - b)
        self.n_checks += 1
        ms = self.e.prove(a == b, [d > 8 * tol, d > 2 * tol])
        if ms:
            # constants that were folded in doubles: the tolerance itself may still be provable
            ms2 = self.e.prove(d <= tol, [d > 8 * tol, d > 2 * tol])
            if ms2:
                self.candidates.append((label, [self.model_values(m) for m in [*ms2, *ms]]))
        return None

    def check_le(self, label, a, b, tol=0):
        d = a - b
        self.check(label, d <= tol, strong=[d > 2 * tol, d > 1.5 * tol] if not _iszero(tol) else None)

    def check_eq(self, label, a, b):
        self.check(label, _sym_eq(a, b))

    def forall(self, label, n, fn):
        """check fn(k) for every 0 <= k < n"""
        import z3
        from .arrays import iexpr
        from .engine import SymInt
        ne = iexpr(n)
        if not self.e.branch(ne > 0):
            self.check(label + " (empty)", True)
            return
        k = self.e.fresh("k", "int")
        self.e.assume(z3.And(k >= 0, k < ne))
        for fact in list(self.e.univ):
            self.e.assume(fact(k))
        r = fn(SymInt(k))
        if isinstance(r, list):
            for lab, c in r:
                self.check(f"{label}: {lab}", c)
        else:
            self.check(label, r)

    def exists_in(self, label, n, fn, hints=()):
        """check that some 0 <= k < n has fn(k); hints: candidate witnesses"""
        import z3
        from .engine import SymBool, SymInt, to_bool_expr
        r = z3.BoolVal(False)
        for h in hints:
            r = z3.Or(r, z3.And(h >= 0, h < n, to_bool_expr(fn(h))))
        self.check(label, SymBool(r))

    def unreachable(self, label):
        self.check(label, False)

    def observe(self, label, v):
        self.obs.append((label, v))

    def close(self, a, b, tol):
        return abs(a - b) <= tol

    def both(self, *cs):
        import z3
        from .engine import SymBool, to_bool_expr
        return SymBool(z3.And(*[to_bool_expr(c) for c in cs]))

    def either(self, *cs):
        import z3
        from .engine import SymBool, to_bool_expr
        return SymBool(z3.Or(*[to_bool_expr(c) for c in cs]))

    def implies(self, a, b):
        import z3
        from .engine import SymBool, to_bool_expr
        return SymBool(z3.Implies(to_bool_expr(a), to_bool_expr(b)))

    def neg(self, a):
        import z3
        from .engine import SymBool, to_bool_expr
        return SymBool(z3.Not(to_bool_expr(a)))

    def iff(self, a, b):
        import z3
        from .engine import SymBool, to_bool_expr
        return SymBool(to_bool_expr(a) == to_bool_expr(b))

    def ite(self, c, a, b):
        from .engine import ite
        return ite(c, a, b)

    def rnd(self, x):
        from .engine import is_sym, s_round
        return s_round(x) if is_sym(x) else round(x)

    def floor(self, x):
        from .engine import is_sym, s_floor
        return s_floor(x) if is_sym(x) else math.floor(x)

    def trunc(self, x):
        from .engine import is_sym, s_int
        return s_int(x) if is_sym(x) else int(x)

    def fmax(self, *xs):
        from .engine import s_minmax
        return s_minmax(list(xs), False)

    def fmin(self, *xs):
        from .engine import s_minmax
        return s_minmax(list(xs), True)

    def length(self, x):
        from .shims import s_len
        return s_len(x)

    def at(self, v, k):
        """element k of a vector/dataset"""
        from .arrays import SymVec
        if hasattr(v, "vec"):
            v = v.vec
        if type(v) is SymVec:
            return v.get(k)
        return v[k]

    def matrix(self, rows):
        """2D float table"""
        from .arrays import nd
        return nd(rows, kind="f8")

    def objects(self, rows, cols):
        """table of mixed entries"""
        import numpy as np
        from .arrays import SymND
        a = np.empty((len(rows), cols), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a.view(SymND)

    def num(self, x):
        """number, possibly stored as text"""
        return float(x) if isinstance(x, str) else x

    def ord(self, c):
        from .shims import s_ord
        return s_ord(c)

    def chr(self, c):
        from .shims import s_chr
        return s_chr(c)

    @property
    def struct(self):
        from .shims import StructShim
        return StructShim()

    def vsum(self, v):
        return v.sum()

    # -- environment
    def maybe_attr(self, node, key, value, cond):
        """attribute that exists iff cond"""
        node.attrs.set_maybe(key, value, cond)

    def maybe_child(self, group, key, cond):
        """group member (already created) that exists iff cond"""
        group.set_maybe(key, cond)

    def maybe_attr_del(self, node, key, value, cond):
        """existing attribute that stays only if cond"""
        node.attrs.set_maybe(key, value, cond)

    def recompress(self, group, name, comp):
        """store the dataset with that compression (None, name or (name, option))"""
        ds = group[name]
        ds.compression, ds.compression_opts = comp if isinstance(comp, tuple) else (comp, None)

    def h5(self, path):
        """create a recording on 'disk'; returns the writable root"""
        from . import fakeh5
        return fakeh5.register(path)

    def h5_open(self, path, mode="r"):
        from . import fakeh5
        return fakeh5.File(path, mode)

    # -- time
    def now(self):
        """the present, in utc"""
        from .symtime import NOW
        return NOW

    def td(self, name, lo, hi):
        """duration of a symbolic number of microseconds, bounds in seconds"""
        from .symtime import SymTD
        return SymTD(self.int(name, round(lo * 1e6), round(hi * 1e6)).e)

    # -- models
    def model_values(self, m):
        import z3
        out = {}
        for name, (kind, ex) in self.e.inputs.items():
            if kind == "vec":
                continue
            v = m.eval(ex, model_completion=True)
            out[name] = _pyval(v)
        for name, (f, n, idx, kind, lo, hi) in self.vecs.items():
            pts = {}
            for i in idx:
                k = m.eval(i, model_completion=True)
                if z3.is_int_value(k):
                    pts[k.as_long()] = _pyval(m.eval(f(k), model_completion=True))
            ln = n if isinstance(n, int) and type(n) is int else None
            if ln is None:
                from .arrays import iexpr
                ln = m.eval(iexpr(n), model_completion=True).as_long()
            out[name] = {"n": ln, "pts": {str(k): v for k, v in pts.items()}}
        return out

    def eval_obs(self, m):
        import z3
        from . import engine as E
        out = []
        for label, v in self.obs:
            if E.is_sym(v):
                try:
                    x = m.eval(v.e, model_completion=True)
                    x = _pyval(x)
                except Exception:
                    x = None
                out.append((label, x))
            elif isinstance(v, (str, int, float, bool, type(None))):
                out.append((label, v))
        _ = z3
        return out


def SymReal_const(x):
    from .engine import lift
    return lift(float(x))[0]


def _iszero(t):
    return isinstance(t, (int, float)) and t == 0


def _pyval(v):
    import z3
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(f"model value {v}")


def _sym_eq(a, b):
    import z3
    from .engine import SymBool, is_sym, to_bool_expr
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        r = z3.BoolVal(True)
        for x, y in zip(a, b):
            c = _sym_eq(x, y)
            r = z3.And(r, to_bool_expr(c) if is_sym(c) else z3.BoolVal(bool(c)))
        return SymBool(r)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return _sym_eq([a[k] for k in a], [b[k] for k in a])
    if a is None or b is None:
        return a is b
    return a == b


class ConSX(_Base):
    sym = False

    def __init__(self, values, seed=1):
        super().__init__()
        self.v = dict(values)
        self.seed = seed
        self.failures = []
        self.n_checks = 0

    def _get(self, name, lo=None, hi=None, default=0):
        """inputs the symbolic path never asked for get some value inside their range"""
        if name not in self.v:
            x = default
            if lo is not None and x < lo:
                x = lo
            if hi is not None and x > hi:
                x = hi
            self.v[name] = x
        return self.v[name]

    def int(self, name, lo=None, hi=None, bits=None):
        x = self._get(name, lo, hi)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Abort(name)
        return x

    def real(self, name, lo=None, hi=None):
        x = float(self._get(name, lo, hi, 0.0))
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Abort(name)
        return x

    def bool(self, name):
        return bool(self._get(name, default=False))

    def choice(self, name, opts):
        opts = list(opts)
        return opts[min(max(self._get(name), 0), len(opts) - 1)]

    def flag(self, name):
        return bool(self._get(name, default=False))

    def vec(self, name, n, lo=0, hi=1, kind="int", dtype="u4"):
        import numpy as np
        d = self.v.get(name, {"pts": {}})
        rng = np.random.default_rng(self.seed * 7919 + sum(map(ord, name)))
        if kind == "int":
            a = rng.integers(lo, hi, size=n, endpoint=True, dtype=np.uint64 if lo >= 0 else np.int64)
        else:
            a = rng.uniform(lo, hi, size=n)
        a = a.astype(dtype)
        for k, x in d["pts"].items():
            if 0 <= int(k) < n:
                a[int(k)] = x
        return a

    def array(self, name, n, lo, hi, kind="int", dtype="f8"):
        import numpy as np
        items = [self.int(f"{name}_{i}", lo, hi) if kind == "int" else
                 self.real(f"{name}_{i}", lo, hi) for i in range(n)]
        return np.array(items, dtype=dtype)

    def assume(self, c):
        if not c:
            raise Abort("assume")

    def is_true(self, c):
        return bool(c)

    def check(self, label, cond, strong=None, detail=None):
        self.n_checks += 1
        if not bool(cond):
            self.failures.append((label, detail))

    def check_close(self, label, a, b, tol):
        d = abs(a - b)
        self.check(label, bool(d <= tol * 1.25 + 1e-300), detail=f"got {a!r}, expected {b!r} +- {tol!r}")

    def check_exact(self, label, a, b, tol):
        self.check_close(label, a, b, tol)

    def check_le(self, label, a, b, tol=0):
        self.check(label, a - b <= tol * 1.25, detail=f"{a!r} <= {b!r} (+{tol!r})")

    def check_eq(self, label, a, b):
        import numpy as np
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.array_equal(a, b)
        else:
            ok = a == b
        self.check(label, bool(ok), detail=f"got {str(a)[:200]}, expected {str(b)[:200]}")

    def forall(self, label, n, fn):
        bad = None
        ks = range(int(n))
        if n > 60000:
            rng = random.Random(self.seed)
            ks = sorted({*range(300), *range(int(n) - 300, int(n)),
                         *[rng.randrange(int(n)) for _ in range(20000)]})
        self.n_checks += 1
        for k in ks:
            r = fn(k)
            if isinstance(r, list):
                for lab, c in r:
                    if not bool(c):
                        bad = (k, lab)
                        break
            elif not bool(r):
                bad = (k, "")
            if bad:
                break
        if bad:
            self.failures.append((label, f"element {bad[0]} {bad[1]}"))

    def exists_in(self, label, n, fn, hints=()):
        self.n_checks += 1
        if not any(bool(fn(k)) for k in range(int(n))):
            self.failures.append((label, "no element"))

    def unreachable(self, label):
        self.check(label, False)

    def observe(self, label, v):
        import numpy as np
        if isinstance(v, np.generic):
            v = v.item()
        self.obs.append((label, v))

    def close(self, a, b, tol):
        return abs(a - b) <= tol * 1.25 + 1e-300

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def neg(self, a):
        return not bool(a)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def rnd(self, x):
        return round(x)

    def floor(self, x):
        return math.floor(x)

    def trunc(self, x):
        return int(x)

    def fmax(self, *xs):
        return max(xs)

    def fmin(self, *xs):
        return min(xs)

    def length(self, x):
        return len(x)

    def at(self, v, k):
        return v[k].item() if hasattr(v[k], "item") else v[k]

    def matrix(self, rows):
        import numpy as np
        return np.array(rows, dtype=float)

    def objects(self, rows, cols):
        import numpy as np
        a = np.empty((len(rows), cols), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def num(self, x):
        return float(x)

    def ord(self, c):
        return ord(c) if len(c) == 1 else -1

    def chr(self, c):
        return chr(c)

    @property
    def struct(self):
        import struct
        return struct

    def vsum(self, v):
        import numpy as np
        return float(np.sum(v))

    def maybe_attr(self, node, key, value, cond):
        if cond:
            node.attrs[key] = value

    def maybe_child(self, group, key, cond):
        if not cond:
            del group[key]

    def maybe_attr_del(self, node, key, value, cond):
        if not cond:
            del node.attrs[key]

    def recompress(self, group, name, comp):
        data, attrs = group[name][:], dict(group[name].attrs)
        del group[name]
        c, o = comp if isinstance(comp, tuple) else (comp, None)
        kw = {} if o is None else {"compression_opts": o}
        ds = group.create_dataset(name, data=data, maxshape=(None,), chunks=(10000,), compression=c, **kw)
        for k, v in attrs.items():
            ds.attrs[k] = v

    def now(self):
        from datetime import datetime, timezone
        if not hasattr(self, "_now"):
            self._now = datetime.now(timezone.utc).replace(microsecond=0)
        return self._now

    def td(self, name, lo, hi):
        from datetime import timedelta
        return timedelta(microseconds=self.int(name, round(lo * 1e6), round(hi * 1e6)))

    def h5(self, path):
        import h5py
        return h5py.File(path, "w")

    def h5_open(self, path, mode="r"):
        import h5py
        return h5py.File(path, mode)


_ = os
