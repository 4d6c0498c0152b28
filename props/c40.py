"""C40 a plot shows the requested part of the recording in SI units and never replaces an image"""
from . import c32
from .common import CAL, closing, iso_time, recording

BOUNDS = ("recordings of 4..25 555 samples (complete and incomplete buffers) at 100 and 1 ksps, target sizes of a seventh of the recording "
          "up to the default of 4 million points, any start/end as int or float -1..1.5 x runtime or missing, arbitrary "
          "content, first time stamp and calibration; figures of 1..3 traces with up to 4 points")
OUTSIDE = ("appearance of the image, coefficients and block handling of the low-pass (C32), ranges whose border lies on half a sample, "
           "traces longer than 25 555 samples")
STUBS = ["Reader.downsample -> every factor-th sample of its arguments (filtered values are an unknown function of position and "
         "value), replays use the real one", "matplotlib -> recorder of plotted lines (replays: also)", "h5py -> in-memory datasets"]
MODULES = ("shepherd_data",)
LOG = {}


class Axis:
    def __init__(self):
        self.lines, self.named = [], False

    def legend(self, *a, **k):
        self.named = True

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((x, y, label))
        return []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Axis()


class Fig(Axis):
    pass


class Plt:
    """stand-in for pyplot"""

    Figure = Fig

    @staticmethod
    def subplots(nrows=1, ncols=1, **_k):
        import numpy as np
        f, n = Fig(), nrows * ncols
        f.axes = [Axis() for _ in range(n)]
        LOG.setdefault("figs", []).append(f)
        if n == 1:
            return f, f.axes[0]
        axs = np.empty(n, dtype=object)
        axs[:] = f.axes
        return f, axs

    @staticmethod
    def savefig(path, *a, **k):
        LOG.setdefault("saved", []).append(str(path))
        open(path, "w").close()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def _patch():
    import shepherd_data.reader as m
    m.plt = Plt()


def extra_shims():
    import z3
    _patch()
    LOG["G"] = z3.Function("lowpass", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())


def setup_con():
    _patch()


def cases(tier):
    out = []
    for n in (5, 12_345, 25_555) if tier == "quick" else (5, 1000, 12_345, 25_555, 400_001):
        for m in (None, n):
            for rel in (True, False) if n == 5 or tier != "quick" else (m is None,):
                out.append((f"data/{n}/{m or 'default'}/{'rel' if rel else 'abs'}", "data", {"n": n, "m": m, "rel": rel}))
    for n in (1000, 25_555):
        for q in (2, 3, 7) if tier == "quick" else (2, 3, 4, 5, 7, 10, 25):
            for d in (0, 1):
                for rel in (True, False):
                    out.append((f"less/{n}/{q}+{d}/{'rel' if rel else 'abs'}", "data", {"n": n, "m": n // q + d, "rel": rel, "ranges": True}))
    out += [(f"figure/{n}/{'pwr' if p else 'all'}", "figure", {"n": n, "pwr": p}) for n in (1, 2, 3) for p in (False, True)]
    out += [("figure/single", "figure", {"n": 0, "pwr": False})]
    out += [("file", "to_file", {}), ("multi", "multi", {})]
    return out


def limit(sx, name, top):
    kind = sx.choice(f"{name}_type", ["none", "float", "int"])
    if kind == "none":
        return None
    if kind == "int":
        return sx.int(name, -1, int(top * 1.5) + 1)
    return sx.real(name, -1, top * 1.5)


def stub(sx, calls):
    def downsample(data_src, data_dst=None, start_n=0, end_n=None, ds_factor=5, *, is_time=False):
        from symx.arrays import SymVec, simp
        from symx.engine import SymReal, lift
        import z3
        import math
        n = sx.length(data_src)
        e = n if end_n is None else sx.fmin(n, sx.rnd(end_n))
        s = sx.fmin(e, sx.rnd(start_n))
        f = sx.floor(ds_factor)
        ff = 1
        while sx.is_true(f > ff):  # one path per factor
            ff += 1
            if ff > 64:
                from symx.engine import Unsupported
                raise Unsupported("factor beyond 64")
        m = sx.floor((e - s) / ff) if ff > 1 else e - s
        calls.append((data_src, s, ff, m, is_time))

        def fn(i):
            x = sx.at(data_src[:], s + wrap(i) * ff)
            if is_time or ff == 1:
                return x
            r = lift(x)[0]
            return SymReal(LOG["G"](simp(lift(s)[0]), simp(i), z3.ToReal(r) if r.is_int() else r))

        def wrap(i):
            from symx.engine import SymInt
            return SymInt(i) if z3.is_expr(i) else i
        return SymVec(m, fn, dtype="f8")
    return downsample


def data(sx, n, m, rel, ranges=False):
    from shepherd_data import Reader
    rate = 1000 if n in (1000, 25_555) else 100_000
    path = sx.tmpdir() / "rec.h5"
    cal = sx.choice("cal", [{k: CAL[k] for k in ("voltage", "current")}, {"voltage": (2.5e-3, -5.0), "current": (1e-9, 0.25)}])
    t0 = sx.int("t0", 0, 10**15)
    t = iso_time(sx, n, t0, 10**9 // rate)
    if sx.sym:
        v, c = sx.vec("v", n, 0, 2**32 - 1), sx.vec("c", n, 0, 2**32 - 1)
    else:
        import numpy as np
        sx.vec("v", 1), sx.vec("c", 1)
        v, c = (np.arange(n) * 997 + 5).astype("u4"), (np.arange(n) * 1013 + 70_000).astype("u4")
    recording(sx, path, t, v, c, cal=cal, hostname="sheep7")
    if ranges:
        start = sx.choice("start", [None, 0, 0.02, 0.3 * n / rate, 0.9 * n / rate])
        end = sx.choice("end", [None, 1, 0.04, 0.55 * n / rate, n / rate - 1 / rate, 1e3])
    else:
        start, end = limit(sx, "start", n / rate), limit(sx, "end", n / rate)
    s = 0 if start is None else sx.rnd(sx.fmax(0, start) * rate)
    e = n if end is None else sx.rnd(sx.fmin(n / rate, end) * rate)
    for x in (start, end):
        if x is not None and not ranges:
            frac = x * rate - sx.floor(x * rate)
            sx.assume(abs(frac - 0.5) > 1e-3)
    calls = []
    with closing(Reader(path, verbose=None)) as r:
        # short recordings reveal their rate only by their complete buffers
        r.samplerate_sps = rate
        if m is not None:
            r.max_elements = m
        if sx.sym:
            r.downsample = stub(sx, calls)
        got = r.generate_plot_data(start, end, relative_timestamp=rel)
        top = r.max_elements
        if not sx.sym and got is not None:
            import numpy as np
            ln = int(e - s)
            k = sx.length(got["time"])
            ff = max(1, ln // k) if k else 1
            # factor that explains the distance of the points
            if k > 1:
                ff = max(1, round((got["time"][1] - got["time"][0]) * rate))
            ref = {x: r.downsample(r.h5file["data"][x], None, int(s), int(e), ff) for x in ("voltage", "current")}
    short = e - s < 5
    sx.check("refused iff less than 5 samples", sx.iff(got is None, short))
    sx.observe("none", got is None)
    if got is None:
        return
    ln = e - s
    sx.check("named by host", got["name"] == "sheep7")
    sx.check_close("reported start", got["start_s"], 0 if start is None else sx.fmax(0, start), 1e-9)
    sx.check_close("reported end", got["end_s"], n / rate if end is None else sx.fmin(n / rate, end), 1e-9)
    k = sx.length(got["time"])
    sx.check_eq("as many voltages as times", sx.length(got["voltage"]), k)
    sx.check_eq("as many currents as times", sx.length(got["current"]), k)
    sx.check("complete when it fits", sx.implies(ln <= top, k == ln))
    sx.check("not much larger than asked for", k <= 2 * top + 1)
    sx.check("not coarser than needed", sx.either(k == ln, k * 1.02 + 2 >= sx.fmin(ln, top)))
    off = t0 * 1e-9 if rel else 0
    if sx.sym:
        if not calls:
            ff = 1
        else:
            ff = max(x[2] for x in calls)

        def same(y, raw, i, key):
            g, o = cal[key]
            x = sx.at(raw, s + i * ff)
            if ff > 1:
                from symx.engine import SymReal, lift
                from symx.arrays import simp
                import z3
                e_ = lift(x)[0]
                x = SymReal(LOG["G"](simp(lift(s)[0]), simp(lift(i)[0]), z3.ToReal(e_) if e_.is_int() else e_))
            d = y - (x * g + o)
            return sx.both(d <= 1e-6, d >= -1e-6)

        def one(i):
            d = sx.at(got["time"], i) - (sx.at(t, s + i * ff) * 1e-9 - off)
            return [("time", sx.both(d <= 2e-9, d >= -2e-9)), ("voltage", same(sx.at(got["voltage"], i), v, i, "voltage")),
                    ("current", same(sx.at(got["current"], i), c, i, "current"))]
        sx.forall("content", k, one)
        return
    import numpy as np
    tt = (np.asarray(t[int(s):int(e):ff][:k], dtype="f8") - (float(t0) if rel else 0)) * 1e-9
    k = min(len(tt), k, len(ref["voltage"]))
    tol = 2e-9 if rel else 1e-3
    sx.forall("content", k, lambda i: [("time", abs(float(got["time"][i]) - float(tt[i])) <= tol)])
    for key in ("voltage", "current"):
        g, o = cal[key]
        y = np.maximum(0, np.asarray(ref[key], dtype="f8")[:k]) * g + o
        x = np.asarray(got[key], dtype="f8")[:k]
        low = np.asarray(ref[key], dtype="f8")[:k] * g + o
        good = (np.abs(x - y) <= 1e-9 * (1 + np.abs(y))) | (np.abs(x - low) <= 1e-9 * (1 + np.abs(low)))
        sx.forall("content", k, lambda i: [(key, bool(good[i]))])


def trace(sx, i, n=None):
    n = sx.choice(f"n{i}", [1, 3, 4]) if n is None else n
    return {"name": f"sheep{i}", "time": sx.array(f"t{i}", n, 0, 1000, "real"), "voltage": sx.array(f"v{i}", n, 0, 5, "real"),
            "current": sx.array(f"c{i}", n, 0, 0.05, "real"), "start_s": sx.choice(f"s{i}", [0, 0.5]), "end_s": sx.choice(f"e{i}", [1.0, 12])}


def drawn(sx, fig, traces, pwr):
    axes = fig.axes
    sx.check_eq("number of diagrams", len(axes), 1 if pwr else 3)
    want = [("power", -1, lambda d: [v * c * 1000 for v, c in zip(items(d["voltage"]), items(d["current"]))])]
    if not pwr:
        want = [("voltage", 0, lambda d: items(d["voltage"])), ("current", 1, lambda d: [c * 1000 for c in items(d["current"])]), *want]
    for what, pos, fn in want:
        lines = axes[pos].lines
        sx.check_eq(f"lines of {what}", len(lines), len(traces))
        if len(lines) != len(traces):
            continue
        for (x, y, lab), d in zip(lines, traces):
            sx.check(f"label of {what}", lab == d["name"])
            ref, ys, xs, ts = fn(d), items(y), items(x), items(d["time"])
            sx.check(f"size of {what}", len(ys) == len(ref) and len(xs) == len(ts))
            for a, b in zip(ys, ref):
                sx.check_close(f"values of {what}", a, b, 1e-9)
            for a, b in zip(xs, ts):
                sx.check_eq(f"times of {what}", a, b)


def items(a):
    return [a[i] for i in range(len(a))]


def figure(sx, n, pwr):
    from shepherd_data import Reader
    traces = [trace(sx, i) for i in range(max(1, n))]
    LOG["figs"] = []
    arg = traces[0] if n == 0 else traces
    fig = Reader.assemble_plot(arg, only_pwr=pwr)
    sx.check("figure is returned", isinstance(fig, Fig))
    drawn(sx, fig, traces, pwr)
    if n > 1:
        sx.check("traces are named", fig.named or any(a.named for a in fig.axes))
    sx.observe("axes", len(fig.axes))


def to_file(sx):
    from shepherd_data import Reader
    d = sx.tmpdir()
    path = d / "rec.h5"
    n = 20_000
    t = iso_time(sx, n, 0, 10_000)
    if sx.sym:
        from symx.arrays import SymVec
        v = SymVec(n, lambda i: 5, dtype="u4")
    else:
        import numpy as np
        v = np.full(n, 5, dtype="u4")
    recording(sx, path, t, v, v)
    rng = sx.choice("range", [(None, None), (0, 0.1), (0.05, None), (0.05, 0.15), (0.1, 0.10001), (3, None)])
    pwr = sx.flag("pwr")
    small = rng in ((0.1, 0.10001), (3, None))
    LOG.update(figs=[], saved=[])
    trc = {"name": "s", "time": [0.0], "voltage": [1.0], "current": [2.0]}
    given = []
    with closing(Reader(path, verbose=None)) as r:
        # the content is checked in data/, only the range matters here
        real = r.generate_plot_data
        r.downsample = lambda src, *a, **k: src[0:10]
        r.generate_plot_data = lambda *a, **k: given.append(real(*a, **k)) or given[-1]
        before = {p.name for p in d.iterdir()}
        r.plot_to_file(*rng, only_pwr=pwr)
        new = {p.name for p in d.iterdir()} - before
        sx.check("an image unless the range is too small", len(new) == (0 if small else 1))
        if small:
            return
        name = next(iter(new)) if new else ""
        sx.check("image beside the recording", name.startswith("rec.") and name.endswith(".png"))
        figs = list(LOG["figs"])
        sx.check("one figure", len(figs) == 1)
        if figs and given and given[0] is not None:
            drawn(sx, figs[0], [given[0]], pwr)
        if not new:
            return
        (d / name).write_text("mine")
        r.plot_to_file(*rng, only_pwr=not pwr)
        sx.check("existing image is kept", (d / name).read_text() == "mine")
        sx.check("no further file", {p.name for p in d.iterdir()} - before == {name})
        other = sx.choice("other", [(None, None), (0, 0.1), (0.05, None), (0.05, 0.15)])
        r.plot_to_file(*other, only_pwr=pwr)
        full = {(None, None): (0, 0.2), (0.05, None): (0.05, 0.2)}
        same = full.get(other, other) == full.get(rng, rng)
        sx.check("another range has its own image", len({p.name for p in d.iterdir()} - before) == (1 if same else 2))
        sx.check("first image is kept", (d / name).read_text() == "mine")
        sx.observe("same", same)


def multi(sx):
    from shepherd_data import Reader
    d = sx.tmpdir()
    k = sx.choice("count", [1, 2])
    traces = [trace(sx, i, 2) for i in range(k)]
    pwr = sx.flag("pwr")
    LOG.update(figs=[], saved=[])
    base = d / sx.choice("target", ["all", "sub.x"])
    got = Reader.multiplot_to_file(traces, base, only_pwr=pwr)
    files = {p.name for p in d.iterdir()}
    sx.check("one image", len(files) == 1 and got is not None and {got.name} == files)
    sx.check("one figure", len(LOG["figs"]) == 1)
    if LOG["figs"]:
        drawn(sx, LOG["figs"][0], traces, pwr)
    if len(files) != 1:
        return
    (d / next(iter(files))).write_text("mine")
    again = Reader.multiplot_to_file(traces, base, only_pwr=pwr)
    sx.check("nothing reported when it exists", again is None)
    sx.check("existing image is kept", (d / next(iter(files))).read_text() == "mine" and {p.name for p in d.iterdir()} == files)
    sx.observe("n", k)
