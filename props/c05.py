"""C05 appending keeps the datasets in lock-step (inductive step over an arbitrary recording)"""
from .common import closing, dsets, iso_time, recording

BOUNDS = ("existing recording of 0..2^21 arbitrary samples (first stamp == last stamp; plus iso-chronous ones of given lengths), appended arrays of independent lengths 0..2^20 with "
          "arbitrary uint32/uint64 content; one append from an arbitrary state (induction over histories), two "
          "appends in a row from an empty file")
OUTSIDE = "the HDF5 library itself (fake with numpy-like slicing, resize, clamping conversion)"
STUBS = ["h5py -> in-memory datasets with symbolic length/content", "logging disabled"]
N = 2**20


def cases(tier):
    out = []
    out.append(("step/array", "step", {"ts": "array", "vk": "u4"}))
    out.append(("step/float-arrays", "step", {"ts": "array", "vk": "f8"}))
    for n0 in (0, 1, 3, 10000, 123457) if tier == "quick" else (
            0, 1, 2, 3, 7, 9999, 10000, 10001, 20000, 123457, 2**20):
        for ts in ("int", "float"):
            out.append((f"step/{ts}/{n0}", "step", {"ts": ts, "vk": "u4", "n0": n0}))
    out.append(("fresh_two/int", "fresh_two", {"ts": "int"}))
    out.append(("fresh_two/array", "fresh_two", {"ts": "array"}))
    for bad in ("str", "none", "list", "dict"):
        out.append((f"bad_timestamp/{bad}", "bad_timestamp", {"bad": bad}))
    for n0 in (2, 3, 500, 10000, 19999, 20001, 400000):
        for dt in (10_000, 100_000, 1_000_000, 12_500) if n0 != 500 or tier != "quick" else (1, 7):
            out.append((f"interval/{n0}/{dt}", "interval", {"n0": n0, "dt": dt}))
    out.append(("si", "append_si", {}))
    return out


def data(sx, p, kind="u4"):
    nv, nc = sx.int(f"{p}nv", 0, N), sx.int(f"{p}nc", 0, N)
    sx.is_true(nv <= nc)
    v = sx.vec(f"{p}v", nv, 0, 2**32 - 1, dtype="u4")
    c = sx.vec(f"{p}c", nc, 0, 2**32 - 1, dtype="u4")
    if kind == "f8":
        v, c = v.astype("f8"), c.astype("f8")
    return nv, nc, v, c


def stamps(sx, p, ts, nv, nc):
    if ts == "array":
        nt = sx.int(f"{p}nt", 0, N)
        sx.is_true(nt <= nv)
        sx.is_true(nt <= nc)
        return nt, sx.vec(f"{p}t", nt, 0, 2**62, dtype="u8")
    if ts == "int":
        return None, sx.int(f"{p}t0", 0, 2**62)
    t = sx.int(f"{p}t0", 0, 2**50) + 0.25
    return None, t


def old_time(sx, n0):
    """arbitrary stamps, except that no sampling interval can be derived from the end points
    (that derivation is the subject of the interval/* and step/<int|float>/<n0> cases)"""
    ot = sx.vec("ot", n0, 0, 2**62, dtype="u8")
    if sx.is_true(n0 > 0):
        sx.assume(sx.at(ot, n0 - 1) == sx.at(ot, 0))
    return ot


def start_of(sx, ts, t):
    return t if ts != "float" else sx.trunc(t)


def step(sx, ts, vk, n0=None):
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    if n0 is None:
        n0 = sx.int("n0", 0, 2**21)
        ot = old_time(sx, n0)
    else:
        ot = iso_time(sx, n0, sx.int("told", 0, 2**61), 20_000)
        interval = 20_000 if n0 > 1 else 10_000
    ov = sx.vec("ov", n0, 0, 2**32 - 1)
    oc = sx.vec("oc", n0, 0, 2**32 - 1)
    recording(sx, path, ot, ov, oc)
    w = Writer(path, modify_existing=True, verbose=None)
    with closing(w):
        nv, nc, v, c = data(sx, "x", vk)
        nt, t = stamps(sx, "x", ts, nv, nc)
        w.append_iv_data_raw(t, v, c)
        new = sx.fmin(nv, nc) if nt is None else sx.fmin(nv, nc, nt)
        dt_, dv, dc = dsets(w)
        for lab, d in (("time", dt_), ("voltage", dv), ("current", dc)):
            sx.check(f"length of {lab}", d.shape[0] == n0 + new)
        sx.observe("len", dt_.shape[0])
        sx.forall("earlier samples untouched", n0, lambda k: [
            ("time", sx.at(dt_, k) == sx.at(ot, k)), ("voltage", sx.at(dv, k) == sx.at(ov, k)),
            ("current", sx.at(dc, k) == sx.at(oc, k))])

        def f(k):
            e = sx.at(t, k) if nt is not None else start_of(sx, ts, t) + k * interval
            return [("time", sx.at(dt_, n0 + k) == e),
                    ("voltage", sx.at(dv, n0 + k) == sx.at(v, k)),
                    ("current", sx.at(dc, n0 + k) == sx.at(c, k))]
        sx.forall("new samples", new, f)


def fresh_two(sx, ts):
    from shepherd_core import Writer
    w = Writer(sx.tmpdir() / "b.h5", verbose=None)
    with closing(w):
        exp = []
        pos = 0
        for p in ("x", "y"):
            nv, nc, v, c = data(sx, p)
            nt, t = stamps(sx, p, ts, nv, nc)
            w.append_iv_data_raw(t, v, c)
            new = sx.fmin(nv, nc) if nt is None else sx.fmin(nv, nc, nt)
            exp.append((pos, new, nt, t, v, c))
            pos = pos + new
        dt_, dv, dc = dsets(w)
        sx.check("equal lengths", sx.both(dt_.shape[0] == pos, dv.shape[0] == pos,
                                          dc.shape[0] == pos))
        sx.observe("len", dt_.shape[0])
        for i, (p0, new, nt, t, v, c) in enumerate(exp):
            def f(k):
                e = sx.at(t, k) if nt is not None else t + k * 10_000
                return [("time", sx.at(dt_, p0 + k) == e),
                        ("voltage", sx.at(dv, p0 + k) == sx.at(v, k)),
                        ("current", sx.at(dc, p0 + k) == sx.at(c, k))]
            sx.forall(f"samples of append {i}", new, f)


def bad_timestamp(sx, bad):
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    n0 = sx.int("n0", 0, 2**21)
    ot = old_time(sx, n0)
    ov = sx.vec("ov", n0, 0, 2**32 - 1)
    oc = sx.vec("oc", n0, 0, 2**32 - 1)
    recording(sx, path, ot, ov, oc)
    w = Writer(path, modify_existing=True, verbose=None)
    with closing(w):
        nv, nc, v, c = data(sx, "x")
        t = {"str": "12", "none": None, "list": [1, 2], "dict": {}}[bad]
        ok, _ = sx.attempt(lambda: w.append_iv_data_raw(t, v, c), TypeError)
        sx.check("refused", not ok)
        for lab, d, o in zip(("time", "voltage", "current"), dsets(w), (ot, ov, oc)):
            sx.check(f"length of {lab} unchanged", d.shape[0] == n0)
            sx.forall(f"{lab} unchanged", n0, lambda k: sx.at(d, k) == sx.at(o, k))
        sx.observe("n", dsets(w)[0].shape[0])


def interval(sx, n0, dt):
    """sampling interval of an existing iso-chronous recording is continued"""
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    t0 = sx.int("t0", 0, 2**61)
    ov = sx.vec("ov", n0, 0, 2**32 - 1)
    oc = sx.vec("oc", n0, 0, 2**32 - 1)
    recording(sx, path, iso_time(sx, n0, t0, dt), ov, oc)
    w = Writer(path, modify_existing=True, verbose=None)
    with closing(w):
        nv, nc, v, c = data(sx, "x")
        t = sx.int("t", 0, 2**61)
        w.append_iv_data_raw(t, v, c)
        new = sx.fmin(nv, nc)
        ds = dsets(w)[0]
        sx.forall("stamps continue at the sampling interval", new,
                  lambda k: sx.at(ds, n0 + k) == t + k * dt)
        sx.observe("len", ds.shape[0])


def append_si(sx):
    """the SI variant converts by the file's own calibration and appends the same way"""
    from shepherd_core import Writer
    from shepherd_core.data_models.base.calibration import CalibrationPair, CalibrationSeries
    gv, gc = sx.real("gv", 1e-9, 1.0), sx.real("gc", 1e-9, 1.0)
    ov, oc = sx.real("ov", -1.0, 1.0), sx.real("oc", -1.0, 1.0)
    cal = CalibrationSeries(voltage=CalibrationPair(gain=gv, offset=ov),
                            current=CalibrationPair(gain=gc, offset=oc))
    w = Writer(sx.tmpdir() / "b.h5", cal_data=cal, verbose=None)
    with closing(w):
        nv, nc = sx.int("nv", 0, N), sx.int("nc", 0, N)
        rv = sx.vec("rv", nv, 0, 2**32 - 1)
        rc = sx.vec("rc", nc, 0, 2**32 - 1)
        t0 = sx.int("t0", 0, 2**45)
        w.append_iv_data_si(t0 * 1e-9, rv * gv + ov, rc * gc + oc)
        new = sx.fmin(nv, nc)
        dt_, dv, dc = dsets(w)
        sx.check("equal lengths", sx.both(dt_.shape[0] == new, dv.shape[0] == new,
                                          dc.shape[0] == new))

        def f(k):
            # 1 LSB slack only for values whose double conversion error reaches half a step
            return [("voltage", abs(sx.trunc(sx.at(dv, k)) - sx.at(rv, k)) <= 0),
                    ("current", abs(sx.trunc(sx.at(dc, k)) - sx.at(rc, k)) <= 0),
                    ("time", sx.at(dt_, k) == t0 + k * 10_000)]
        sx.forall("samples", new, f)
        sx.observe("len", dt_.shape[0])
