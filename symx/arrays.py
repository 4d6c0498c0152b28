"""Symbolic numpy stand-ins.

SymVec  - one-dimensional vector of (possibly) symbolic length, elements produced lazily from
          their index, so a statement about element k is a statement about every element.
SymND   - object-dtype ndarray of concrete shape holding proxies.
"""
from __future__ import annotations

import numpy as np
import z3

from . import engine as E
from .engine import (SymBool, SymInt, SymReal, Unsupported, _arith, _cmp, ctx, is_sym, ite, lift,
                     s_ceil, s_float, s_floor, s_int, s_minmax, s_round, s_sqrt, to_bool_expr)

MAT_CAP = 12


def iexpr(x):
    if isinstance(x, z3.ExprRef):
        return x
    e, k = lift(x)
    if k != "int":
        raise Unsupported("float used as index")
    return e


def simp(e):
    return z3.simplify(e)


def mk_int(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


def dtype_kind(t):
    if isinstance(t, np.dtype):
        return t.kind
    try:
        return np.dtype(t).kind
    except TypeError:
        return "O"


def cast_elem(x, dt):
    """numpy .astype() of one element (C truncation, modulo for unsigned)."""
    k = dt.kind
    if k == "f":
        return s_float(x) if is_sym(x) else float(x)
    if k in "iu":
        bits = dt.itemsize * 8
        if not is_sym(x):
            v = int(x)
            if k == "u":
                return SymInt(z3.IntVal(v % 2**bits), bits)
            return v
        r = s_int(x)
        if k == "u":
            e = z3.If(z3.And(r.e >= 0, r.e < 2**bits), r.e, r.e % (2**bits))
            return SymInt(e, bits)
        return SymInt(r.e)
    if k == "b":
        return SymBool(to_bool_expr(x)) if is_sym(x) else bool(x)
    return x


def wrap_np(x):
    """plain numpy integers keep their width when mixed with proxies"""
    if isinstance(x, np.unsignedinteger):
        return SymInt(z3.IntVal(int(x)), x.dtype.itemsize * 8)
    if isinstance(x, np.generic):
        return x.item()
    return x


def as_vec(x):
    if type(x) is SymVec:
        return x
    a = np.asarray(x)
    if a.ndim != 1:
        raise Unsupported("vector of ndim != 1")
    return SymVec.of_list(list(a.view(np.ndarray)), a.dtype)


_OPS = {
    np.add: "+", np.subtract: "-", np.multiply: "*", np.true_divide: "/", np.floor_divide: "//",
    np.remainder: "%", np.less: "<", np.less_equal: "<=", np.greater: ">",
    np.greater_equal: ">=", np.equal: "==", np.not_equal: "!=",
}


def scalar_op(op, a, b):
    a, b = wrap_np(a), wrap_np(b)
    if op in ("<", "<=", ">", ">=", "==", "!="):
        if is_sym(a):
            if type(a) is SymBool:
                if op == "==":
                    return a == b
                if op == "!=":
                    return a != b
                a = a._num()
            return _cmp(op, a, b)
        if is_sym(b):
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            return scalar_op(flip, b, a)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if type(a) is SymBool:
        a = a._num()
    if type(b) is SymBool:
        b = b._num()
    if is_sym(a):
        return _arith(op, a, b)
    if is_sym(b):
        return _arith(op, b, a, swap=True)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "//": lambda: a // b, "%": lambda: a % b}[op]()


def scalar_ufunc(ufunc, args):
    if ufunc in _OPS:
        return scalar_op(_OPS[ufunc], *args)
    a = args[0]
    if not any(is_sym(x) for x in args):
        return ufunc(*args)
    if ufunc is np.rint:
        return s_float(s_round(a))
    if ufunc is np.floor:
        return s_float(s_floor(a))
    if ufunc is np.ceil:
        return s_float(s_ceil(a))
    if ufunc is np.trunc:
        return s_float(s_int(a))
    if ufunc is np.negative:
        return -a
    if ufunc is np.positive:
        return a
    if ufunc in (np.absolute, np.fabs):
        return abs(a)
    if ufunc is np.sqrt:
        return s_sqrt(a)
    if ufunc is np.square:
        return a * a
    if ufunc is np.power:
        return a ** args[1]
    if ufunc is np.maximum:
        return s_minmax(list(args), False)
    if ufunc is np.minimum:
        return s_minmax(list(args), True)
    if ufunc is np.logical_not:
        return SymBool(z3.Not(to_bool_expr(a)))
    if ufunc is np.logical_and:
        return SymBool(z3.And(to_bool_expr(a), to_bool_expr(args[1])))
    if ufunc is np.logical_or:
        return SymBool(z3.Or(to_bool_expr(a), to_bool_expr(args[1])))
    if ufunc is np.logical_xor:
        return SymBool(z3.Xor(to_bool_expr(a), to_bool_expr(args[1])))
    if ufunc is np.reciprocal:
        return 1.0 / a
    if ufunc is np.invert:
        return ~a
    if ufunc is np.bitwise_and:
        return a & args[1] if is_sym(a) else args[1] & a
    if ufunc is np.bitwise_or:
        return a | args[1] if is_sym(a) else args[1] | a
    if ufunc is np.bitwise_xor:
        return a ^ args[1] if is_sym(a) else args[1] ^ a
    if ufunc is np.left_shift:
        return a << args[1] if is_sym(a) else args[1].__rlshift__(a)
    if ufunc is np.right_shift:
        return a >> args[1] if is_sym(a) else args[1].__rrshift__(a)
    if ufunc is np.isnan or ufunc is np.isinf:
        return False
    if ufunc is np.isfinite:
        return True
    raise Unsupported(f"ufunc {ufunc.__name__}")


_KIND_CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal,
             np.logical_not, np.logical_and, np.logical_or, np.logical_xor, np.isnan,
             np.isfinite, np.isinf}


class SymVec:
    __class__ = property(lambda self: np.ndarray)
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, n, fn, *, start=0, dtype="f8", name=None, concrete=None):
        self.n = n
        self.fn = fn
        self.start = start
        self.dtype = np.dtype(dtype)
        self.name = name
        self.concrete = concrete

    @staticmethod
    def of_list(items, dtype="f8"):
        items = [cast_elem(x, np.dtype(dtype)) if np.dtype(dtype).kind == "u" and not is_sym(x)
                 else wrap_np(x) for x in items]

        def fn(i):
            i = simp(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if not 0 <= k < len(items):
                    return items[0] if items else 0
                return items[k]
            if not items:
                return 0
            if len(items) > 400:
                raise Unsupported("symbolic index into long concrete array")
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(SymBool(i == k), items[k], r)
            return r

        return SymVec(len(items), fn, dtype=dtype)

    # -- element access
    def get(self, i):
        i = iexpr(i)
        st = iexpr(self.start)
        return self.fn(simp(i + st))

    def map(self, f, dtype=None):
        base = self.fn
        return SymVec(self.n, lambda i: f(base(i)), start=self.start, dtype=dtype or self.dtype)

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def ndim(self):
        return 1

    @property
    def T(self):
        return self

    def __len__(self):
        if is_sym(self.n):
            return ctx().concretise(self.n.e, cap=MAT_CAP, what="len()")
        return self.n

    def __bool__(self):
        raise ValueError("truth value of an array is ambiguous")

    def copy(self):
        return SymVec(self.n, self.fn, start=self.start, dtype=self.dtype)

    __copy__ = copy

    def resize(self, *size, refcheck=True):
        n = size[0] if len(size) == 1 else size
        n = n[0] if isinstance(n, (tuple, list)) and len(n) == 1 else n
        if isinstance(n, (tuple, list)):
            raise Unsupported("resize to more dimensions")
        if type(n) is SymReal or isinstance(n, float):
            raise TypeError("size must be int")
        old = iexpr(self.n)
        if refcheck and getattr(self, "shared", False) and ctx().branch(iexpr(n) != old):
            raise ValueError("cannot resize an array that references or is referenced")
        if is_sym(n) and ctx().branch(n.e < 0):
            raise ValueError("negative dimensions not allowed")
        if not ctx().implied(iexpr(n) <= old):
            base, st = self.fn, iexpr(self.start)
            zero = cast_elem(0, self.dtype)
            self.fn = lambda i: ite(SymBool(i < old + st), base(i), zero)
        self.n = n

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **_k):
        dt = np.dtype(t)
        return self.map(lambda x: cast_elem(x, dt), dtype=dt)

    def view(self, *_a):
        return self

    def flatten(self, *_a):
        return self.copy()

    ravel = squeeze = flatten

    def reshape(self, *shape, **_k):
        return _f_reshape(self, *shape)

    def fill(self, v):
        self[:] = v

    def take(self, idx, **_k):
        return self[idx]

    def prod(self, **_k):
        return _f_prod(self)

    def cumsum(self, **_k):
        return _f_cumsum(self)

    def argmin(self, **_k):
        return _f_argext(True)(self)

    def argmax(self, **_k):
        return _f_argext(False)(self)

    def argsort(self, **_k):
        return _f_argsort(self)

    def nonzero(self):
        return _f_where(self)

    def dot(self, o):
        return _f_dot(self, o)

    def item(self, *a):
        return self[a[0] if a else 0]

    def repeat(self, n, **_k):
        return _f_repeat(self, n)

    def tolist(self):
        return [self.get(i) for i in range(len(self))]

    def __iter__(self):
        if not is_sym(self.n):
            for i in range(self.n):
                yield self.get(i)
            return
        i = 0
        while True:
            if not ctx().branch(self.n.e > i):
                return
            if i >= 64:
                ctx().st["bound_hits"] += 1
                ctx().note("iteration over a symbolic-length vector cut at 64")
                raise E.PathAbort("iter bound")
            yield self.get(i)
            i += 1

    def _norm_slice(self, s):
        return norm_slice(s, self.n)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if key is Ellipsis:
            return self.copy()
        if isinstance(key, slice):
            if isinstance(key.step, int) and key.step < 0 and not is_sym(key.step):
                if key.start is not None or key.stop is not None:
                    return self.materialise()[key]
                base, st, last, k = self.fn, iexpr(self.start), iexpr(self.n) - 1, -key.step
                cnt = mk_int((last + k) / k) if is_sym(self.n) else (self.n + k - 1) // k
                return SymVec(cnt, lambda i: base(simp(st + last - i * k)), dtype=self.dtype)
            a, n, step = self._norm_slice(key)
            if step == 1:
                return SymVec(n, self.fn, start=mk_int(iexpr(self.start) + iexpr(a)),
                              dtype=self.dtype)
            base, st = self.fn, iexpr(self.start)
            ae, se = iexpr(a), iexpr(step)
            return SymVec(n, lambda i: base(simp(st + ae + i * se)), dtype=self.dtype)
        if isinstance(key, list):
            key = np.asarray(key)
        if isinstance(key, np.ndarray):
            return self.materialise()[key]
        if is_sym(key) or isinstance(key, (int, np.integer)):
            k, n = iexpr(key), iexpr(self.n)
            if ctx().branch(z3.And(k >= 0, k < n)):
                return self.get(k)
            if ctx().branch(z3.And(k < 0, k >= -n)):
                return self.get(simp(k + n))
            raise IndexError("index out of bounds")
        raise Unsupported(f"vector index {type(key)}")

    def __setitem__(self, key, val):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        base, st = self.fn, iexpr(self.start)
        if isinstance(key, np.ndarray):
            m = as_vec(key) if type(key) is not SymVec else key
            if m.dtype.kind != "b" or isinstance(val, np.ndarray):
                raise Unsupported("fancy assignment")
            mf, mst = m.fn, iexpr(m.start)
            dt = self.dtype

            def fn(i):
                c = mf(simp(i - st + mst))
                if not is_sym(c):
                    return cast_elem(val, dt) if c else base(i)
                return ite(c, cast_elem(val, dt), base(i))

            self.fn = fn
            return
        if key is Ellipsis:
            key = slice(None)
        if isinstance(key, slice):
            a, n, step = self._norm_slice(key)
            if step != 1:
                raise Unsupported("strided assignment")
            self.fn = overlay(base, st, a, n, val, self.dtype, err=ValueError)
            return
        k, n = iexpr(key), iexpr(self.n)
        if not ctx().branch(z3.And(k >= -n, k < n)):
            raise IndexError("index out of bounds")
        k = z3.If(k < 0, k + n, k)
        v = cast_elem(val, self.dtype)
        self.fn = lambda i: ite(SymBool(i == k + st), v, base(i))

    # -- reductions
    def sum(self, *_a, **_k):
        return sum_range(self)

    def mean(self, *_a, **_k):
        n = self.n
        if is_sym(n) and ctx().branch(n.e == 0):
            raise Unsupported("mean of empty")
        return s_float(self.sum()) / n if is_sym(self.sum()) else self.sum() / n

    def _extreme(self, is_min):
        c = ctx()
        if not is_sym(self.n) and self.n <= 6:
            if self.n == 0:
                raise ValueError("zero-size array to reduction operation")
            return s_minmax([self.get(i) for i in range(self.n)], is_min)
        n = iexpr(self.n)
        if c.branch(n <= 0):
            raise ValueError("zero-size array to reduction operation")
        j = c.fresh("arg", "int")
        c.assume(z3.And(j >= 0, j < n))
        m = self.get(j)
        me, mk = lift(m)
        st = iexpr(self.start)
        base = self.fn

        def fact(i):  # absolute index in the base vector
            e, k = lift(base(i))
            x, y = (e, me) if k == mk else (E.as_real(e, k), E.as_real(me, mk))
            return z3.Implies(z3.And(i >= st, i < st + n), y <= x if is_min else y >= x)

        c.univ.append(fact)
        return m

    def min(self, *_a, **_k):
        return self._extreme(True)

    def max(self, *_a, **_k):
        return self._extreme(False)

    def std(self, *_a, **_k):
        v = ctx().fresh("std")
        ctx().assume(v >= 0)
        return SymReal(v)

    def any(self, *_a, **_k):
        return bool(self.materialise().any())

    def all(self, *_a, **_k):
        return bool(self.materialise().all())

    def round(self, decimals=0, **_k):
        return self.map(lambda x: _around(x, decimals))

    def clip(self, lo=None, hi=None, **_k):
        lo, hi = _k.get("min", lo), _k.get("max", hi)

        def f(x):
            if lo is not None:
                x = s_minmax([x, lo], False)
            if hi is not None:
                x = s_minmax([x, hi], True)
            return x
        return self.map(f)

    def materialise(self, cap=None):
        n = self.n
        if is_sym(n):
            n = ctx().concretise(n.e, cap=cap or MAT_CAP, what="vector length")
        return nd([self.get(i) for i in range(n)], shape=(n,), kind=self.dtype)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.materialise(), dtype=object)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == "reduce":
            if ufunc is np.add:
                return inputs[0].sum()
            if ufunc is np.minimum:
                return inputs[0].min()
            if ufunc is np.maximum:
                return inputs[0].max()
            return NotImplemented
        if method != "__call__":
            return NotImplemented
        r = vec_ufunc(ufunc, inputs)
        if out is not None:
            out[0].fn, out[0].start = r.fn, r.start
            return out[0]
        return r

    def __array_function__(self, func, types, args, kwargs):
        f = NP_FUNCS.get(func.__name__)
        if f is None:
            raise Unsupported(f"numpy.{func.__name__} on symbolic vector")
        return f(*args, **kwargs)

    def _bin(self, u, o, swap=False):
        return vec_ufunc(u, (o, self) if swap else (self, o))


def norm_slice(s, n):
    """(start, count, step) of a slice on a sequence of length n, all possibly symbolic."""
    step = 1 if s.step is None else s.step
    if is_sym(step):
        if not ctx().branch(step.e > 0):
            raise Unsupported("non-positive symbolic step")
    elif step <= 0:
        raise Unsupported("non-positive step")
    ne = iexpr(n)

    def clampi(v, default):
        if v is None:
            return default
        e = iexpr(v)
        e = simp(e)
        e = z3.If(e < 0, z3.If(e + ne < 0, z3.IntVal(0), e + ne), z3.If(e > ne, ne, e))
        return _try_resolve(simp(e))

    a = clampi(s.start, z3.IntVal(0))
    b = clampi(s.stop, ne)
    cnt = simp(z3.If(b > a, b - a, z3.IntVal(0)))
    if not (not is_sym(step) and step == 1):
        se = iexpr(step)
        cnt = simp((cnt + se - 1) / se)
    return mk_int(a), mk_int(_try_resolve(cnt)), step


def _try_resolve(e):
    """Replace an If-expression by the branch the path forces (keeps terms small)."""
    if z3.is_int_value(e) or not _has_ite(e):
        return e
    c = ctx()
    if e.decl().kind() == z3.Z3_OP_ITE:
        cond = e.arg(0)
        if c.implied(cond):
            return _try_resolve(e.arg(1))
        if c.implied(z3.Not(cond)):
            return _try_resolve(e.arg(2))
    return e


def _has_ite(e, depth=0):
    if e.decl().kind() == z3.Z3_OP_ITE:
        return True
    return depth < 4 and any(_has_ite(x, depth + 1) for x in e.children())


def overlay(base, st, a, n, val, dt, err=TypeError, cast=cast_elem):
    ae, ne = iexpr(a), iexpr(n)
    st = iexpr(st)
    if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
        v = as_vec(val)
        v = v.copy()
        if True:
            if ctx().branch(iexpr(v.n) != ne):
                if not ctx().branch(iexpr(v.n) == 1):
                    raise err("could not broadcast input array")
                v0 = v.get(0)
                v = SymVec(n, lambda i: v0, dtype=v.dtype)
        vf, vst = v.fn, iexpr(v.start)

        def fn(i):
            inside = simp(z3.And(i >= st + ae, i < st + ae + ne))
            if z3.is_false(inside):
                return base(i)
            new = cast(vf(simp(i - st - ae + vst)), dt)
            if z3.is_true(inside):
                return new
            return ite(SymBool(inside), new, base(i))

        return fn
    v = cast(val, dt)
    return lambda i: ite(SymBool(z3.And(i >= st + ae, i < st + ae + ne)), v, base(i))


def _around(x, decimals=0):
    if not is_sym(x):
        return np.around(x, decimals)
    r = s_round(x, decimals if decimals else None)
    return s_float(r) if type(x) is SymReal else r


def vec_ufunc(ufunc, inputs):
    vecs = []
    for x in inputs:
        if type(x) is SymVec:
            vecs.append(x)
        elif isinstance(x, np.ndarray) and x.ndim == 1:
            vecs.append(as_vec(x))
        elif isinstance(x, np.ndarray) and x.ndim == 0:
            vecs.append(x.item())
        elif isinstance(x, (list, tuple)):
            vecs.append(as_vec(np.asarray(x)))
        elif isinstance(x, np.ndarray):
            raise Unsupported("mixed dimensions")
        else:
            vecs.append(x)
    real = [v for v in vecs if type(v) is SymVec]
    n = real[0].n
    for v in real[1:]:
        if v.n is n:
            continue
        if is_sym(v.n) or is_sym(n):
            if ctx().branch(iexpr(v.n) != iexpr(n)):
                raise ValueError("operands could not be broadcast together")
        elif v.n != n:
            raise ValueError("operands could not be broadcast together")
    starts = [iexpr(v.start) for v in real]
    same = all(simp(s - starts[0]).eq(z3.IntVal(0)) for s in starts[1:])
    kinds = [v.dtype.kind if type(v) is SymVec else
             ("f" if type(v) is SymReal or isinstance(v, float) else "i") for v in vecs]
    if ufunc in _KIND_CMP:
        dt = np.dtype("?")
    elif ufunc in (np.true_divide, np.sqrt) or "f" in kinds:
        dt = np.dtype("f8")
    elif all(k == "b" for k in kinds):
        dt = np.dtype("?") if ufunc not in (np.add, np.multiply) else np.dtype("i8")
    else:
        us = [v.dtype for v in real if v.dtype.kind in "iu"]
        dt = np.result_type(*us) if us else np.dtype("i8")

    def elem(args):
        return scalar_ufunc(ufunc, args)

    # value semantics: later in-place changes of an operand must not show up here
    vecs = [SymVec(v.n, v.fn, start=v.start, dtype=v.dtype) if type(v) is SymVec else v
            for v in vecs]
    if same:
        st = real[0].start
        return SymVec(n, lambda i: elem([v.fn(i) if type(v) is SymVec else v for v in vecs]),
                      start=st, dtype=dt)
    return SymVec(n, lambda i: elem([v.get(i) if type(v) is SymVec else v for v in vecs]),
                  dtype=dt)


for _name, _u in {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
    "floordiv": np.floor_divide, "mod": np.remainder, "and": np.bitwise_and,
    "or": np.bitwise_or, "xor": np.bitwise_xor, "lshift": np.left_shift,
    "rshift": np.right_shift, "pow": np.power,
}.items():
    def _f(self, o, _u=_u):
        return self._bin(_u, o)

    def _r(self, o, _u=_u):
        return self._bin(_u, o, swap=True)
    setattr(SymVec, f"__{_name}__", _f)
    setattr(SymVec, f"__r{_name}__", _r)
for _name, _u in {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
                  "eq": np.equal, "ne": np.not_equal}.items():
    def _f(self, o, _u=_u):
        return self._bin(_u, o)
    setattr(SymVec, f"__{_name}__", _f)
SymVec.__neg__ = lambda s: vec_ufunc(np.negative, (s,))
SymVec.__abs__ = lambda s: vec_ufunc(np.absolute, (s,))
SymVec.__invert__ = lambda s: vec_ufunc(np.invert, (s,))


# -- sums -----------------------------------------------------------------------------------
def _depends(e, k):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        st.extend(x.children())
    return False


def _poly(e, k, lim=24):
    """real term as polynomial {atoms depending on k: factor not depending on k}; None if it is none (or too long)"""
    one = z3.RealVal(1)
    if not _depends(e, k):
        return {(): e if e.sort() == z3.RealSort() else z3.ToReal(e)}
    d = e.decl().kind() if z3.is_app(e) else None
    ch = e.children()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = {}
        for i, x in enumerate(ch):
            p = _poly(x, k, lim)
            if p is None:
                return None
            for m, f in p.items():
                f = -f if i and d == z3.Z3_OP_SUB else f
                r[m] = r[m] + f if m in r else f
        return r if len(r) <= lim else None
    if d == z3.Z3_OP_UMINUS:
        p = _poly(ch[0], k, lim)
        return None if p is None else {m: -f for m, f in p.items()}
    if d == z3.Z3_OP_MUL:
        r = {(): one}
        for x in ch:
            p = _poly(x, k, lim)
            if p is None or len(p) * len(r) > lim:
                return None
            q = {}
            for m1, f1 in r.items():
                for m2, f2 in p.items():
                    m = tuple(sorted(m1 + m2, key=lambda t: t.get_id()))
                    q[m] = q[m] + f1 * f2 if m in q else f1 * f2
            r = q
        return r
    if d == z3.Z3_OP_DIV and not _depends(ch[1], k):
        p = _poly(ch[0], k, lim)
        den = ch[1] if ch[1].sort() == z3.RealSort() else z3.ToReal(ch[1])
        return None if p is None else {m: f / den for m, f in p.items()}
    if d == z3.Z3_OP_TO_REAL:
        x = ch[0]
        if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return _poly(x, k, lim)
    return {((e if e.sort() == z3.RealSort() else z3.ToReal(e)),): one} if z3.is_arith(e) else None


def _prefix(c, e):
    for e2, P2 in c.sums:
        if e2.eq(e) or c.implied(e2 == e):
            return P2
    P = z3.Function(f"prefix!{len(c.sums)}", z3.IntSort(), z3.RealSort())
    c.sums.append((e, P))
    return P


def sum_range(v: SymVec):
    """sum over base[start : start+n] as difference of a prefix-sum function of the summand.

    The summand is split into monomials first: the sums of v*c, v and c decide the sum of (v*g+o)*(c*h+p)*f."""
    c = ctx()
    if not is_sym(v.n) and v.n <= 8:
        r = 0
        for i in range(v.n):
            r = r + v.get(i)
        return r
    k = z3.Int("sum!idx")
    e, kind = lift(v.fn(k))
    e = simp(E.as_real(e, kind))
    a, n = iexpr(v.start), iexpr(v.n)
    poly = None
    for e2, P2 in c.sums:
        if e2.eq(e):
            poly = {(e,): z3.RealVal(1)}
            break
    if poly is None:
        poly = _poly(e, k) or {(e,): z3.RealVal(1)}
    total = z3.RealVal(0)
    for m, f in poly.items():
        if not m:
            total = total + f * z3.ToReal(n)
            continue
        t = m[0]
        for x in m[1:]:
            t = t * x
        P = _prefix(c, simp(t))
        total = total + simp(f) * (P(simp(a + n)) - P(simp(a)))
    # an empty sum is known
    return SymReal(z3.If(n == 0, z3.RealVal(0), simp(total)))


# -- concrete shape -------------------------------------------------------------------------
class SymND(np.ndarray):
    def __array_finalize__(self, obj):
        self.skind = getattr(obj, "skind", None)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(type(x) is SymVec for x in inputs) and method == "__call__":
            return vec_ufunc(ufunc, inputs)
        ins = [np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x for x in inputs]
        if method == "reduce":
            a = ins[0]
            ax = kw.get("axis", 0)
            if ufunc in (np.minimum, np.maximum):
                return _reduce(a, ax, lambda items: s_minmax(items, ufunc is np.minimum))
            if ufunc is np.logical_or:
                return _reduce(a, ax, lambda items: _fold(items, "or"))
            if ufunc is np.logical_and:
                return _reduce(a, ax, lambda items: _fold(items, "and"))
            r = getattr(ufunc, method)(*[x.astype(object) if isinstance(x, np.ndarray) else x
                                         for x in ins],
                                       **{k: v for k, v in kw.items() if k in ("axis", "keepdims")})
            return r.view(SymND) if isinstance(r, np.ndarray) else r
        if method != "__call__":
            return NotImplemented
        shape = np.broadcast_shapes(*[np.shape(x) if isinstance(x, (np.ndarray, list, tuple))
                                      else () for x in ins])
        bs = [np.broadcast_to(np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x,
                              shape) if isinstance(x, (np.ndarray, list, tuple)) else None
              for x in ins]
        res = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            res[ix] = scalar_ufunc(ufunc, [wrap_np(b[ix]) if b is not None else x
                                           for b, x in zip(bs, ins)])
        res = res.view(SymND)
        if ufunc in _KIND_CMP:
            res.skind = "b"
        elif getattr(self, "skind", None) == "b" and ufunc in (
                np.bitwise_and, np.bitwise_or, np.invert, np.bitwise_xor):
            res.skind = "b"
        if out is not None:
            out[0][...] = res
            return out[0]
        return res

    def astype(self, t, **_k):
        dt = np.dtype(t)
        if dt == object:
            return self.copy()
        res = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            res[ix] = cast_elem(np.ndarray.__getitem__(self, ix), dt)
        res = res.view(SymND)
        res.skind = dt.kind
        return res

    def round(self, decimals=0, **_k):
        return map_nd(self, lambda x: _around(x, decimals))

    def min(self, axis=None, **_k):
        return np.minimum.reduce(self, axis=axis)

    def max(self, axis=None, **_k):
        return np.maximum.reduce(self, axis=axis)

    def mean(self, axis=None, **_k):
        s = np.add.reduce(self, axis=axis) if axis is not None else sum(self.flat)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def sum(self, axis=None, **_k):
        return np.add.reduce(self, axis=axis) if axis is not None else sum(self.flat)

    def std(self, *_a, **_k):
        v = ctx().fresh("std")
        ctx().assume(v >= 0)
        return SymReal(v)

    def any(self, *_a, **_k):
        return any(bool(x) for x in self.flat)

    def all(self, *_a, **_k):
        return all(bool(x) for x in self.flat)

    def __getitem__(self, key):
        key = _resolve_key(key)
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, val):
        if isinstance(key, np.ndarray) and key.dtype == object and _is_boolish(key) \
                and not isinstance(val, np.ndarray) and key.shape == self.shape:
            for ix in np.ndindex(*self.shape):
                c = key.view(np.ndarray)[ix]
                old = np.ndarray.__getitem__(self, ix)
                np.ndarray.__setitem__(self, ix, ite(c, val, old))
            return
        np.ndarray.__setitem__(self, _resolve_key(key), val)

    def __array_function__(self, func, types, args, kwargs):
        f = NP_FUNCS.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return super().__array_function__(func, [np.ndarray], args, kwargs)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def item(self, *a):
        return np.ndarray.__getitem__(self, a if a else (0,) * self.ndim)

    def reshape(self, *shape, **_k):
        return _f_reshape(self, *shape)

    def cumsum(self, **_k):
        return _f_cumsum(self)

    def prod(self, **_k):
        return _f_prod(self)

    def argmin(self, **_k):
        return _f_argext(True)(self)

    def argmax(self, **_k):
        return _f_argext(False)(self)

    def argsort(self, **_k):
        return _f_argsort(self)

    def nonzero(self):
        return _f_where(self)

    def clip(self, lo=None, hi=None, **k):
        return _f_clip(self, lo, hi, **k)

    def dot(self, o):
        return _f_dot(self, o)


def _is_boolish(a):
    if getattr(a, "skind", None) == "b":
        return True
    return a.size > 0 and all(type(x) is SymBool or isinstance(x, (bool, np.bool_)) for x in a.flat)


def _resolve_key(key):
    def one(k):
        if type(k) is SymVec:
            k = k.materialise()
        if isinstance(k, np.ndarray) and k.dtype == object:
            if _is_boolish(k) or k.size == 0 and getattr(k, "skind", None) == "b":
                return np.array([bool(x) for x in k.view(np.ndarray).flat], dtype=bool).reshape(k.shape)
            return np.array([int(x) if not is_sym(x) else x.__index__()
                             for x in k.view(np.ndarray).flat], dtype=int).reshape(k.shape)
        if type(k) is SymInt:
            return k.__index__()
        if isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop, k.step)):
            return slice(*[x.__index__() if is_sym(x) else x for x in (k.start, k.stop, k.step)])
        return k
    return tuple(one(k) for k in key) if isinstance(key, tuple) else one(key)


def _fold(items, kind):
    es = [to_bool_expr(x) for x in items]
    return SymBool(z3.Or(*es) if kind == "or" else z3.And(*es))


def _reduce(a, axis, f):
    if axis is None or a.ndim == 1:
        items = [wrap_np(x) for x in a.flat]
        if not items:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return f(items)
    a2 = np.moveaxis(a, axis, -1)
    res = np.empty(a2.shape[:-1], dtype=object)
    for ix in np.ndindex(*res.shape):
        res[ix] = f([wrap_np(x) for x in a2[ix]])
    return res.view(SymND)


def nd(items, shape=None, kind=None):
    """SymND from a (nested) list."""
    if shape is None:
        shape = _shape(items)
    flat = list(_flat(items))
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = wrap_np(x) if not is_sym(x) else x
    r = a.reshape(shape).view(SymND)
    if kind is not None:
        r.skind = np.dtype(kind).kind
    return r


def _shape(x):
    s = ()
    while isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and np.ndim(x)):
        s += (len(x),)
        if len(x) == 0:
            break
        x = x[0]
    return s


def _flat(x):
    if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0:
        for y in x:
            yield from _flat(y)
    else:
        yield x


def map_nd(a, f):
    res = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        res[ix] = f(np.ndarray.__getitem__(a, ix))
    r = res.view(SymND)
    r.skind = getattr(a, "skind", None)
    return r


def symbolic(x, depth=0):
    t = type(x)
    if t in (SymInt, SymReal, SymBool, SymVec, SymND):
        return True
    if isinstance(x, np.ndarray):
        return False
    if t in (list, tuple, set) and depth < 4:
        return any(symbolic(y, depth + 1) for y in x)
    return False


def arr(x):
    """normalise an array-like for the function table"""
    if type(x) in (SymVec, SymND):
        return x
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        if any(type(y) is SymVec for y in x):
            x = [y.materialise() if type(y) is SymVec else y for y in x]
        return nd(x)
    return x


# -- numpy function table ---------------------------------------------------------------------
def _f_around(a, decimals=0, out=None):
    a = arr(a)
    if is_sym(a):
        return _around(a, decimals)
    return a.round(decimals)


def _f_reduce(name):
    def f(a, axis=None, **_k):
        a = arr(a)
        if is_sym(a):
            return a
        if type(a) is SymVec:
            return getattr(a, name)()
        return getattr(a, name)(axis=axis)
    return f


def _f_concat(seqs, axis=0, **_k):
    seqs = list(seqs)
    if not seqs:
        raise ValueError("need at least one array to concatenate")
    if any(type(s) is SymVec for s in seqs):
        vs = [as_vec(s) if type(s) is not SymVec else s for s in seqs]
        kinds = [v.dtype for v in vs]
        r = vs[0]
        for v in vs[1:]:
            r = _cat2(r, v, np.result_type(*kinds))
        return r
    parts = [np.asarray(s if isinstance(s, np.ndarray) else nd(s)).view(np.ndarray).astype(object)
             for s in seqs]
    r = np.concatenate(parts, axis=axis).view(SymND)
    ks = {getattr(s, "skind", None) or (s.dtype.kind if isinstance(s, np.ndarray) and
          s.dtype != object else None) for s in seqs if np.size(s)}
    if ks <= {"b", None} and _is_boolish(r):
        r.skind = "b"
    return r


def _cat2(a, b, dt):
    a, b = a.copy(), b.copy()
    na = iexpr(a.n)
    n = mk_int(na + iexpr(b.n))

    def fn(i):
        c = simp(i < na)
        if z3.is_true(c):
            return a.get(i)
        if z3.is_false(c):
            return b.get(simp(i - na))
        return ite(SymBool(c), a.get(i), b.get(simp(i - na)))

    return SymVec(n, fn, dtype=dt)


def _f_unique(a, return_counts=False, **_k):
    a = arr(a)
    if type(a) is SymVec:
        a = a.materialise()
    out, cnt = [], []
    for x in a.flat:
        x = wrap_np(x)
        for j, y in enumerate(out):
            if x == y:
                cnt[j] += 1
                break
        else:
            # insertion sort
            pos = len(out)
            for j, y in enumerate(out):
                if x < y:
                    pos = j
                    break
            out.insert(pos, x)
            cnt.insert(pos, 1)
    r = nd(out, shape=(len(out),))
    return (r, np.array(cnt)) if return_counts else r


def _sorted(a):
    if type(a) is SymVec:
        a = a.materialise()
    out = []
    for x in a.flat:
        x = wrap_np(x)
        pos = len(out)
        for j, y in enumerate(out):
            if x < y:
                pos = j
                break
        out.insert(pos, x)
    return out


def _f_percentile(a, q):
    o = _sorted(arr(a))
    if not o:
        raise Unsupported("percentile of nothing")
    p = (len(o) - 1) * float(q) / 100
    k = int(p)
    if k + 1 >= len(o):
        return o[-1]
    return o[k] + (o[k + 1] - o[k]) * (p - k)


def _f_diff(a, n=1, axis=-1, prepend=None, append=None, **_k):
    a = arr(a)
    if prepend is not None:
        a = _f_concat([_f_atleast_1d(prepend), a])
    if append is not None:
        a = _f_concat([a, _f_atleast_1d(append)])
    for _ in range(n):
        if getattr(a, "ndim", 1) == 2:
            a = a[1:] - a[:-1] if axis == 0 else a[:, 1:] - a[:, :-1]
        elif getattr(a, "skind", None) == "b" or getattr(a, "dtype", None) == bool:
            a = a[1:] != a[:-1]
        else:
            a = a[1:] - a[:-1]
    return a


def _parts(seqs):
    out = []
    for x in seqs:
        x = arr(x)
        if type(x) is SymVec:
            x = x.materialise()
        if is_sym(x) or not isinstance(x, np.ndarray):
            x = nd([x])
        out.append(x)
    return out


def _f_hstack(seqs, **_k):
    seqs = [arr(x) for x in seqs]
    if all(np.ndim(x) <= 1 or type(x) is SymVec for x in seqs):
        return _f_concat([x if isinstance(x, np.ndarray) else nd([x]) for x in seqs])
    return _f_concat(_parts(seqs), axis=1)


def _f_vstack(seqs, **_k):
    ps = [_numeric(x.reshape(1, -1) if x.ndim == 1 else x) for x in _parts(seqs)]
    return _f_concat(ps, axis=0)


def _numeric(x):
    """booleans become numbers when joined with other columns"""
    o = x.view(np.ndarray).astype(object)
    if x.dtype == bool or getattr(x, "skind", None) == "b" or \
            (o.size and all(type(e) is SymBool for e in o.flat)):
        flat = [e._num() if type(e) is SymBool else int(e) for e in o.flat]
        o = np.array(flat + [None], dtype=object)[:-1].reshape(o.shape)
    return o.view(SymND)


def _f_reshape(a, *shape, **k):
    a = arr(a)
    shape = shape or (k.get("shape", k.get("newshape")),)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if type(a) is SymVec:
        if shape == (-1,):
            return a.copy()
        a = a.materialise()
    shape = tuple(x.__index__() if is_sym(x) else x for x in shape)
    r = np.ndarray.reshape(a, shape)
    return r


def _f_cumsum(a, **_k):
    a = arr(a)
    if type(a) is SymVec:
        a = a.materialise()
    out, acc = [], 0
    for x in a.flat:
        x = wrap_np(x)
        acc = acc + (x._num() if type(x) is SymBool else x)
        out.append(acc)
    return nd(out, shape=(len(out),))


def _f_prod(a, **_k):
    acc = 1
    for x in _parts([a])[0].flat:
        acc = acc * wrap_np(x)
    return acc


def _f_argext(is_min):
    def f(a, axis=None, **_k):
        a = _parts([a])[0]
        if axis not in (None, 0) or a.ndim != 1:
            raise Unsupported("argmin with axis")
        if not a.size:
            raise ValueError("attempt to get argmin of an empty sequence")
        best, pos = wrap_np(a.flat[0]), 0
        for k, x in enumerate(list(a.flat)[1:], 1):
            c = x < best if is_min else x > best
            if not is_sym(c):
                if c:
                    best, pos = x, k
            else:
                pos = ite(c, k, pos)
                best = ite(c, x, best)
        return pos
    return f


def _f_argsort(a, **_k):
    items = [wrap_np(x) for x in _parts([a])[0].flat]
    out = []
    for k, x in enumerate(items):
        pos = len(out)
        for j, y in enumerate(out):
            if x < items[y]:
                pos = j
                break
        out.insert(pos, k)
    return np.array(out, dtype=int)


def _f_isclose(a, b, rtol=1e-05, atol=1e-08, **_k):
    def one(x, y):
        return abs(x - y) <= atol + rtol * abs(y)
    if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
        return one(a, b)
    d = np.absolute(arr(a) - arr(b))
    return d <= (np.absolute(arr(b)) * rtol + atol)


def _f_isin(a, b, invert=False, **_k):
    a = arr(a)
    vals = [wrap_np(x) for x in _parts([b])[0].flat]

    def one(x):
        es = [to_bool_expr(x == y) for y in vals]
        r = SymBool(z3.Or(*es)) if es else SymBool(z3.BoolVal(False))
        return ~r if invert else r
    if type(a) is SymVec:
        return a.map(one, dtype="?")
    if is_sym(a):
        return one(a)
    r = map_nd(a if isinstance(a, SymND) else nd(a), one)
    r.skind = "b"
    return r


def _f_take(a, idx, axis=None, **_k):
    a = arr(a)
    if isinstance(idx, (list, tuple)):
        idx = np.asarray(idx)
    return a[idx]


def _f_delete(a, idx, **_k):
    items = list(_parts([a])[0].flat)
    drop = {k % len(items) for k in np.atleast_1d(np.asarray(idx))} if not isinstance(idx, slice) else \
        set(range(*idx.indices(len(items))))
    return nd([x for k, x in enumerate(items) if k not in drop], shape=(len(items) - len(drop),))


def _f_insert(a, pos, val, **_k):
    a = arr(a)
    if is_sym(pos) or not isinstance(pos, int):
        raise Unsupported("insert at several positions")
    vals = val if isinstance(val, (np.ndarray, list, tuple)) else [val]
    if pos == 0:
        return _f_concat([arr(vals), a])
    return _f_concat([a[:pos], arr(vals), a[pos:]])


def _f_interp(x, xp, fp, **_k):
    xs, ys = [wrap_np(e) for e in _parts([xp])[0].flat], [wrap_np(e) for e in _parts([fp])[0].flat]

    def one(v):
        r = ys[-1]
        for k in range(len(xs) - 2, -1, -1):
            seg = ys[k] + (v - xs[k]) * (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k])
            r = ite(v < xs[k + 1], seg, r)
        return ite(v <= xs[0], ys[0], r)
    x = arr(x)
    if type(x) is SymVec:
        return x.map(one)
    return one(x) if is_sym(x) or not isinstance(x, np.ndarray) else map_nd(nd(x), one)


def _f_repeat(a, n, **_k):
    n = n.__index__() if is_sym(n) else n
    items = [x for x in _parts([a])[0].flat for _ in range(n)]
    return nd(items, shape=(len(items),))


def _f_tile(a, n, **_k):
    n = n.__index__() if is_sym(n) else n
    items = list(_parts([a])[0].flat) * n
    return nd(items, shape=(len(items),))


def _f_roll(a, n, **_k):
    items = list(_parts([a])[0].flat)
    n = (n.__index__() if is_sym(n) else n) % max(1, len(items))
    return nd(items[len(items) - n:] + items[:len(items) - n], shape=(len(items),))


def _f_searchsorted(a, v, side="left", **_k):
    xs = [wrap_np(e) for e in _parts([a])[0].flat]

    def one(x):
        r = 0
        for e in xs:
            c = e < x if side == "left" else e <= x
            r = r + (c._num() if type(c) is SymBool else int(c))
        return r
    v = arr(v)
    if type(v) is SymVec:
        return v.map(one, dtype="i8")
    return one(v) if is_sym(v) or not isinstance(v, np.ndarray) else map_nd(nd(v), one)


def _f_sign(a, **_k):
    def one(x):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    a = arr(a)
    if type(a) is SymVec:
        return a.map(one)
    return one(a) if is_sym(a) else map_nd(a, one)


def _f_ptp(a, **_k):
    a = arr(a)
    return a.max() - a.min()


def _f_average(a, axis=None, weights=None, **_k):
    a = arr(a)
    if weights is not None:
        w = arr(weights)
        return (a * w).sum() / w.sum()
    return a.mean() if axis is None else a.mean(axis=axis)


def _f_atleast_1d(a):
    a = arr(a)
    return a if isinstance(a, np.ndarray) else nd([a])


def _f_split(a, n, **_k):
    a = arr(a)
    k = len(a)
    return [a[i * k // n:(i + 1) * k // n] for i in range(n)]


def _f_fromiter(it, dtype=None, count=-1, **_k):
    r = nd(list(it))
    return r.astype(dtype) if dtype is not None else r


def _f_polyval(p, x):
    r = 0
    for c in (p if not isinstance(p, np.ndarray) else p.flat):
        r = r * x + c
    return r


def _f_stack(seqs, axis=0, **_k):
    seqs = _parts(seqs)
    return np.stack([np.asarray(arr(s), dtype=object).view(np.ndarray) for s in seqs],
                    axis=axis).view(SymND)


def _f_column_stack(seqs):
    cols = []
    for s in seqs:
        s = arr(s)
        if type(s) is SymVec:
            s = s.materialise()
        o = np.asarray(s).view(np.ndarray)
        if s.dtype != object and o.dtype == bool:
            o = o.astype(int)
        o = o.astype(object)
        k = getattr(s, "skind", None)
        if k == "b" or (o.size and all(type(x) is SymBool for x in o.flat)):
            o = np.array([x._num() if type(x) is SymBool else int(x) for x in o.flat] + [None],
                         dtype=object)[:-1].reshape(o.shape)
        cols.append(o)
    if len({len(c) for c in cols}) > 1:
        raise ValueError("all the input array dimensions must match")
    return np.column_stack(cols).view(SymND)


def _f_array(a, dtype=None, **_k):
    if is_sym(a):
        return a
    a = a.copy() if type(a) in (SymVec, SymND) else nd(a)
    if dtype is not None and dtype_kind(dtype) != "O":
        a = a.astype(dtype)
    return a


def _f_arange(*args, dtype=None, **_k):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop = args[:2]
        step = args[2] if len(args) > 2 else 1
    if any(type(x) is SymReal for x in (start, stop, step)):
        # numpy: length = ceil((stop - start) / step), value k = start + k * delta
        c = ctx()
        q = _arith("/", s_float(stop - start) if is_sym(stop - start) else SymReal(lift(float(stop - start))[0]), step)
        n = s_ceil(_float_slack(q))
        n = mk_int(z3.If(n.e > 0, n.e, z3.IntVal(0)))
        st = start
        return SymVec(n, lambda i: st + SymInt(i) * step, dtype="f8")
    d = stop - start
    if is_sym(step):
        raise Unsupported("arange with symbolic int step")
    de = iexpr(d)
    n = mk_int(z3.If(de > 0, (de + (step - 1)) / step, z3.IntVal(0)))
    st = iexpr(start)
    return SymVec(n, lambda i: SymInt(simp(st + i * step)), dtype=dtype or "i8")


def _f_linspace(start, stop, num=50, endpoint=True, dtype=None, **_k):
    if dtype is not None:
        raise Unsupported("linspace with dtype")
    if is_sym(num) and endpoint:
        raise Unsupported("linspace with symbolic number")
    div = num - 1 if endpoint else num
    if not is_sym(num) and div <= 0:
        return SymVec(num, lambda _i: s_float(start), dtype="f8")
    step = _arith("/", s_float(stop - start), div)
    return SymVec(num, lambda i: start + SymInt(i) * step, dtype="f8")


def _float_slack(q):
    """Quotient as computed in double precision: exact value with relative error <= 3 ulp."""
    c = ctx()
    r = c.fresh("quot")
    u = z3.RealVal(f"3/{2**53}")
    e = q.e
    c.assume(z3.Or(z3.And(e >= 0, r <= e * (1 + u), r >= e * (1 - u)),
                   z3.And(e <= 0, r >= e * (1 + u), r <= e * (1 - u))))
    return SymReal(r)


def _f_full(n, val, dtype=None, **_k):
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    if isinstance(n, tuple):
        if any(is_sym(x) for x in n):
            raise Unsupported("2D symbolic shape")
        return map_nd(np.empty(n, dtype=object).view(SymND), lambda _x: val)
    if is_sym(n) and ctx().branch(n.e < 0):
        raise ValueError("negative dimensions are not allowed")
    dt = np.dtype(dtype or ("f8" if not isinstance(val, bool) else "?"))
    v = cast_elem(val, dt)
    return SymVec(n, lambda _i: v, dtype=dt)


def _f_where(c, a=None, b=None):
    c = arr(c)
    if a is None:
        if type(c) is SymVec:
            c = c.materialise()
        idx = [i for i, x in enumerate(c) if bool(x)]
        return (np.array(idx, dtype=int),)
    if type(c) is SymVec:
        c = c.copy()

        def pick(v):
            if type(v) is SymVec:
                v = v.copy()
                return lambda i: v.get(i)
            return lambda _i: v
        fa, fb = pick(a), pick(b)
        return SymVec(c.n, lambda i: ite(c.get(i), fa(i), fb(i)))
    if is_sym(c):
        return ite(c, a, b)
    bc = np.broadcast_arrays(np.asarray(c), np.asarray(arr(a)) if not is_sym(a) else nd([a]),
                             np.asarray(arr(b)) if not is_sym(b) else nd([b]))
    res = np.empty(bc[0].shape, dtype=object)
    for ix in np.ndindex(*res.shape):
        res[ix] = ite(bc[0].view(np.ndarray)[ix], bc[1].view(np.ndarray)[ix],
                      bc[2].view(np.ndarray)[ix])
    return res.view(SymND)


def _f_dot(a, b, **_k):
    return (arr(a) * arr(b)).sum()


def _uf(u):
    def f(*args, out=None, **_k):
        args = [arr(x) if isinstance(x, (list, tuple)) else x for x in args]
        if any(isinstance(x, np.ndarray) for x in args):
            return u(*args)
        return scalar_ufunc(u, list(args))
    return f


def _f_clip(a, lo=None, hi=None, **k):
    lo, hi = k.get("a_min", k.get("min", lo)), k.get("a_max", k.get("max", hi))
    a = arr(a)
    if type(a) is SymVec:
        return a.clip(lo, hi)

    def f(x):
        if lo is not None:
            x = s_minmax([x, lo], False)
        if hi is not None:
            x = s_minmax([x, hi], True)
        return x
    return f(a) if is_sym(a) else map_nd(nd(a) if not isinstance(a, SymND) else a, f)


def _f_count_nonzero(a, **_k):
    a = arr(a)
    if type(a) is SymVec:
        a = a.materialise()
    return sum((x._num() if type(x) is SymBool else (1 if x else 0)) for x in a.flat)


def _allclose(a, b, **k):
    r = _f_isclose(a, b, **k)
    if type(r) is SymVec:
        r = r.materialise()
    return all(bool(x) for x in r.flat) if isinstance(r, np.ndarray) else r


def _squeeze(a):
    return a if type(a) is SymVec else np.ndarray.squeeze(a)


def _f_array_equal(a, b, **_k):
    a, b = arr(a), arr(b)
    if np.shape(a) != np.shape(b):
        return False
    return all(bool(x) for x in np.asarray(a == b).flat)


NP_FUNCS = {
    "around": _f_around, "round": _f_around, "round_": _f_around,
    "mean": _f_reduce("mean"), "min": _f_reduce("min"), "max": _f_reduce("max"),
    "amin": _f_reduce("min"), "amax": _f_reduce("max"), "std": _f_reduce("std"),
    "sum": _f_reduce("sum"), "any": _f_reduce("any"), "all": _f_reduce("all"),
    "concatenate": _f_concat, "hstack": _f_hstack, "reshape": _f_reshape, "cumsum": _f_cumsum,
    "prod": _f_prod, "argmin": _f_argext(True), "argmax": _f_argext(False), "argsort": _f_argsort,
    "isclose": _f_isclose, "isin": _f_isin, "take": _f_take, "delete": _f_delete,
    "insert": _f_insert, "interp": _f_interp, "repeat": _f_repeat, "tile": _f_tile,
    "roll": _f_roll, "searchsorted": _f_searchsorted, "sign": _f_sign, "ptp": _f_ptp,
    "average": _f_average, "atleast_1d": _f_atleast_1d, "array_split": _f_split, "split": _f_split,
    "fromiter": _f_fromiter, "polyval": _f_polyval, "nanmin": _f_reduce("min"),
    "nanmax": _f_reduce("max"), "nansum": _f_reduce("sum"), "nanmean": _f_reduce("mean"),
    "allclose": lambda a, b, **k: _allclose(a, b, **k), "compress": lambda c, a, **k: arr(a)[arr(c)],
    "extract": lambda c, a: arr(a)[arr(c)], "ediff1d": lambda a, **k: _f_diff(a),
    "nan_to_num": lambda a, **k: a, "trim_zeros": None, "squeeze": lambda a, **k: _squeeze(a),
    "ascontiguousarray": lambda a, dtype=None, **k: _f_array(a, dtype), "transpose": lambda a, **k: a.T,
    "ones_like": lambda a, dtype=None, **k: _f_full(np.shape(a), 1, dtype or a.dtype),
    "empty_like": lambda a, dtype=None, **k: _f_full(np.shape(a), 0, dtype or a.dtype),
    "full_like": lambda a, v, dtype=None, **k: _f_full(np.shape(a), v, dtype or a.dtype), "unique": _f_unique, "diff": _f_diff,
    "stack": _f_stack, "column_stack": _f_column_stack, "vstack": _f_vstack,
    "array": _f_array, "asarray": _f_array,
    "arange": _f_arange, "linspace": _f_linspace, "where": _f_where, "dot": _f_dot, "clip": _f_clip,
    "full": _f_full, "zeros": lambda n, dtype=None, **k: _f_full(n, 0, dtype),
    "ones": lambda n, dtype=None, **k: _f_full(n, 1, dtype),
    "empty": lambda n, dtype=None, **k: _f_full(n, 0, dtype),
    "zeros_like": lambda a, dtype=None, **k: _f_full(np.shape(a), 0, dtype or a.dtype),
    "count_nonzero": _f_count_nonzero, "array_equal": _f_array_equal,
    "copy": lambda a, **k: a.copy(), "size": lambda a, **k: a.size, "shape": lambda a: a.shape,
    "ravel": lambda a, **k: a.flatten(), "flip": lambda a, **k: a[::-1],
    "nonzero": lambda a: _f_where(a), "flatnonzero": lambda a: _f_where(a)[0],
    "append": lambda a, b, axis=None: _f_concat([arr(a), _f_atleast_1d(b)],
                                               axis=axis or 0),
    "percentile": lambda a, q, **k: _f_percentile(a, q), "median": lambda a, **k: _f_percentile(a, 50),
    "sort": lambda a, **k: nd(_sorted(arr(a))),
    "ndim": lambda a: getattr(a, "ndim", 0),
}
NP_FUNCS = {k: v for k, v in NP_FUNCS.items() if v is not None}
for _n, _u in {
    "abs": np.absolute, "absolute": np.absolute, "fabs": np.fabs, "sqrt": np.sqrt,
    "floor": np.floor, "ceil": np.ceil, "rint": np.rint, "trunc": np.trunc, "add": np.add,
    "subtract": np.subtract, "multiply": np.multiply, "divide": np.true_divide,
    "true_divide": np.true_divide, "minimum": np.minimum, "maximum": np.maximum,
    "square": np.square, "logical_not": np.logical_not, "logical_and": np.logical_and,
    "logical_or": np.logical_or, "power": np.power, "isnan": np.isnan, "isfinite": np.isfinite,
    "less": np.less, "greater": np.greater, "equal": np.equal, "not_equal": np.not_equal,
    "less_equal": np.less_equal, "greater_equal": np.greater_equal, "bitwise_and": np.bitwise_and,
    "negative": np.negative, "mod": np.remainder, "remainder": np.remainder,
    "floor_divide": np.floor_divide, "bitwise_or": np.bitwise_or, "bitwise_xor": np.bitwise_xor,
    "invert": np.invert, "bitwise_not": np.invert, "left_shift": np.left_shift,
    "right_shift": np.right_shift, "logical_xor": np.logical_xor, "isinf": np.isinf,
    "positive": np.positive, "float_power": np.power, "fmin": np.minimum, "fmax": np.maximum,
    "reciprocal": np.reciprocal,
}.items():
    NP_FUNCS[_n] = _uf(_u)


class NPProxy:
    """Stands in for the `numpy` module inside the code under test."""

    def __init__(self):
        self.__dict__["_np"] = np

    def __getattr__(self, name):
        real = getattr(np, name)
        f = NP_FUNCS.get(name)
        if f is not None and callable(real) and not isinstance(real, type):
            def call(*a, **k):
                if any(symbolic(x) for x in a) or any(symbolic(x) for x in k.values()):
                    return f(*a, **k)
                return real(*a, **k)
            return call
        if isinstance(real, type) and issubclass(real, np.number):
            return _np_scalar(real)
        return real


_np_sc: dict = {}


def _np_scalar(t):
    """numpy scalar types: callable on proxies, still usable for dtype=/isinstance."""
    if t in _np_sc:
        return _np_sc[t]

    class M(type):
        def __call__(cls, x=0, *a):
            if type(x) in (SymVec, SymND):
                return x.astype(t)
            if is_sym(x):
                return cast_elem(x, np.dtype(t))
            return t(x, *a)

        def __instancecheck__(cls, o):
            return isinstance(o, t)

        def __subclasscheck__(cls, o):
            return issubclass(o, t)

        def __getattr__(cls, n):
            return getattr(t, n)
    _np_sc[t] = M(t.__name__, (), {"dtype": np.dtype(t) if t not in (
        np.number, np.integer, np.floating, np.inexact, np.signedinteger, np.unsignedinteger,
        np.complexfloating) else None})
    return _np_sc[t]
