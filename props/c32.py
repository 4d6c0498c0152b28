"""C32 down-sampling decimates on one uniform grid, whatever the internal block size"""
from .common import closing, iso_time, recording

BOUNDS = ("internal blocks of 4, 7, 10, 64 (thorough also 5, 12, 1000) samples and the default of 4 million, sources of up to 4 "
          "blocks (default: 9 million samples), factors 0.5, 1, 2, 2.9, 3, 5, 7 (thorough also 10, 100), any start/end as int or "
          "float inside and beyond the source, arbitrary content; destination: none, array or dataset")
OUTSIDE = ("coefficients of the low-pass (the filter is an unknown causal function of the position in the stream), double rounding, "
           "empty ranges (refused by returning the destination untouched), negative bounds")
STUBS = ["scipy.signal.sosfilt -> uninterpreted output per stream position, with a state that carries the position (replays use the "
         "real filter over the whole range as reference)", "h5py -> in-memory datasets with symbolic length/content", "tqdm"]
MODULES = ("shepherd_data",)

EXP = {"src": None, "start": 0, "sx": None, "sos": None}
_real = {}


def extra_shims():
    import z3
    from scipy import signal
    G = z3.Function("filtered", z3.IntSort(), z3.RealSort(), z3.RealSort())

    class State:
        def __init__(self, pos):
            self.pos = pos

        def copy(self):
            return State(self.pos)

    def sosfilt(sos, x, axis=-1, zi=None):
        from symx.arrays import SymVec, as_vec, simp
        from symx.engine import SymReal, lift
        sx = EXP["sx"]
        v = x if type(x) is SymVec else as_vec(x)
        pos = zi.pos if isinstance(zi, State) else 0
        src, start = EXP["src"], EXP["start"]
        # the stream handed to the filter is the source without gaps (what is read beyond is of no effect)
        if src is not None:
            sx.forall("filter is fed gap-free", sx.fmin(v.n, sx.fmax(EXP["len"] - pos, 0)),
                      lambda k: sx.at(v, k) == sx.at(src, start + pos + k))
        pe = lift(pos)[0]

        def fn(i):
            e = v.get(i)
            r = lift(e)[0]
            return SymReal(G(simp(pe + i), z3.ToReal(r) if r.is_int() else r))

        out = SymVec(v.n, fn, dtype="f8")
        return (out, State(pos + v.n)) if zi is not None else out

    EXP["G"] = lambda p, x: SymReal_(G, p, x)
    signal.sosfilt = sosfilt


def SymReal_(G, p, x):
    import z3
    from symx.engine import SymReal, lift
    r = lift(x)[0]
    return SymReal(G(z3.simplify(lift(p)[0]), z3.ToReal(r) if r.is_int() else r))


def setup_con():
    from scipy import signal
    if "sosfilt" not in _real:
        _real["sosfilt"] = signal.sosfilt

        def sosfilt(sos, x, *a, **k):
            EXP["sos"] = sos
            return _real["sosfilt"](sos, x, *a, **k)

        signal.sosfilt = sosfilt


def cases(tier):
    out = []
    blocks = [4, 7, 10, 64, None] if tier == "quick" else [4, 5, 7, 10, 12, 64, 1000, None]
    fs = [0.5, 1, 2, 2.9, 3, 5, 7] if tier == "quick" else [0.5, 1, 2, 2.9, 3, 5, 7, 10, 100]
    for b in blocks:
        for f in fs:
            if f in (0.5, 2.9) and b not in (4, 10):
                continue
            for kind in ("value", "time"):
                for dst in ("none", "array", "dataset"):
                    if dst == "array" and b not in (4, 10) and tier == "quick":
                        continue
                    out.append((f"{kind}/{b}/x{f}/{dst}", "down", {"block": b, "f": f, "kind": kind, "dst": dst}))
    return out


def ramp(sx, n, a, d):
    if sx.sym:
        from symx.arrays import SymVec, simp
        from symx.engine import SymInt, SymReal, lift
        import z3
        ae, de = lift(a)[0], lift(d)[0]
        return SymVec(n, lambda i: SymReal(z3.ToReal(simp(ae + de * i))), dtype="f8")
    import numpy as np
    return a + d * np.arange(n, dtype="f8")


def bound(sx, name, n):
    """a bound in samples, int or float"""
    if sx.choice(f"{name}_type", ["int", "float"]) == "int":
        v = sx.int(name, 0, n)
        return v, v
    v = sx.real(name, 0, n)
    return v, sx.rnd(v)


def down(sx, block, f, kind, dst):
    from shepherd_data import Reader
    import math
    ff = max(1, math.floor(f))
    own = sx.tmpdir() / "own.h5"
    recording(sx, own, iso_time(sx, 0, 0, 10_000), sx.vec("v0", 0, 0, 1), sx.vec("c0", 0, 0, 1))
    top = 9_000_000 if block is None else 4 * block
    n = sx.int("n", 1, top)
    filtered = kind == "value" and ff > 1
    if filtered:
        src = ramp(sx, n, sx.int("a", 0, 1000), sx.int("d", 1, 1000))
    elif kind == "time":
        src = iso_time(sx, n, sx.int("t0", 0, 10**15), sx.int("dt", 1, 10**6))
    else:
        src = sx.vec("x", n, 0, 2**32 - 1)
    start, s = bound(sx, "start", top)
    if sx.flag("has_end"):
        end, e = bound(sx, "end", 2 * top)
        e = sx.fmin(e, n)
    else:
        end, e = None, n
    ln = e - s
    sx.assume(ln > 0)
    EXP.update(src=src, start=s, sx=sx, sos=None, len=ln)
    where = src
    if not sx.sym or dst == "dataset":
        ext = sx.h5(sx.tmpdir() / "src.h5")
        if dst == "dataset":
            where = ext.create_dataset("src", data=src, dtype="u8" if kind == "time" else
                                       ("f8" if filtered else "u4"), maxshape=(None,), chunks=(1000,))
    if dst == "dataset":
        out = ext.create_dataset("dst", (0,), dtype="u8" if kind == "time" else ("f8" if filtered else "u4"),
                                 maxshape=(None,), chunks=(1000,))
    elif dst == "array":
        import numpy as np
        out = sx.vec("old", 5, 0, 9, dtype="f8") if sx.sym else np.ones(5)
        if sx.sym:
            out.shared = True
    else:
        out = None
    with closing(Reader(own, verbose=None)) as r:
        if block:
            r.max_elements = block
        ok, got = sx.attempt(lambda: r.downsample(where, out, start, end, f, is_time=kind == "time"), ValueError, TypeError)
    sx.check("accepted", ok)
    if not ok:
        return
    got = got if out is None else out
    m = sx.floor(ln / ff)
    sx.check_eq("length", sx.length(got), m)
    if not sx.sym:
        import numpy as np
        ref = np.asarray(src[int(s):int(e)], dtype="f8" if kind != "time" else "u8")
        if filtered:
            sx.check("a filter is used", EXP["sos"] is not None)
            if EXP["sos"] is None:
                return
            ref = _real["sosfilt"](EXP["sos"], ref)
        ref = ref[::ff][:int(m)]
        res = np.asarray(got[:])
        res = res[:len(ref)]
        tol = 1e-6 * (1 + np.abs(ref).max()) if len(ref) and kind != "time" else 0
        sx.forall("value on the grid", len(res), lambda k: abs(float(res[k]) - float(ref[k])) <= tol)
    else:
        G = EXP["G"]

        def one(k):
            x = sx.at(src, s + k * ff)
            return sx.at(got[:], k) == (G(k * ff, x) if filtered else x)
        sx.forall("value on the grid", m, one)
    sx.observe("many", sx.is_true(m > 1))
