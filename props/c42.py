"""C42 converted ivonne recordings are gap-free and carry the panel's values at every recorded instant"""
import math
import operator
import pickle

BOUNDS = ("recordings of 1..10 (thorough 14) rows at 50 Hz from 0 s or 100 s, arbitrary diode constant per row (open-circuit voltage 0..10 V "
          "below and above the limit), for curves arbitrary currents per row with diode constants 2.5 and 12, conversion in blocks "
          "of 3 and 4 rows, up-sampling by 2, any duration -0.01..1.5 x runtime as number or missing, curves of 2..6 points, "
          "limits of 5 and 3.3 V, default and custom trackers, existing output files")
OUTSIDE = ("values between the recorded instants (cubic interpolation), time stamps of float recordings that drift from the sampling "
           "grid, durations within 1e-6 s of a row border, real block size (40 s)")
STUBS = ["Writer -> recorder with larger sample interval and small blocks", "pickle.load -> the constructed frame",
         "pandas resample().interpolate() -> recorded rows on the grid, linear in between (replays use pandas and scipy)"]
MODULES = ("shepherd_data", "shepherd_data.ivonne", "shepherd_data.mppt")
LOG = {}
EPS = 1e-9


class Rec:
    """stand-in for the writer"""

    def __init__(self, file_path, mode=None, datatype=None, window_samples=None, cal_data=None, **kw):
        self.args = {"path": str(file_path), "mode": mode, "datatype": datatype, "window": window_samples, "cal": cal_data, **kw}
        self.sample_interval_ns = LOG["interval"]
        self.samplerate_sps = 10**9 // LOG["interval"]
        self.sample_interval_s = LOG["interval"] / 1e9
        self.max_elements = LOG["max"]
        self.samples_per_buffer = 10
        self.parts = []
        self.host = None
        self.open = False
        LOG["writers"].append(self)

    def __enter__(self):
        self.open = True
        open(self.args["path"], "w").close()
        return self

    def __exit__(self, *a):
        self.open = False

    def store_hostname(self, name):
        self.host = name

    def append_iv_data_si(self, timestamp, voltage, current):
        assert self.open
        self.parts.append((timestamp, voltage, current))


class Resampled:
    def __init__(self, df, rule):
        self.df, self.rule = df, rule

    def interpolate(self, method="linear", **_k):
        import pandas as pd
        df = self.df
        if not len(df):
            return df
        idx = pd.timedelta_range(df.index[0], df.index[-1], freq=self.rule)
        pos = {t: k for k, t in enumerate(df.index)}
        cols = {}
        for c in df.columns:
            val = []
            for t in idx:
                if t in pos:
                    val.append(df[c].iloc[pos[t]])
                    continue
                k = max(k for k, u in enumerate(df.index) if u < t)
                w = (t - df.index[k]) / (df.index[k + 1] - df.index[k])
                x, y = df[c].iloc[k], df[c].iloc[k + 1]
                val.append(x + (y - x) * float(w))
            cols[c] = pd.Series(val, index=idx, dtype=df[c].dtype)
        return type(df)(cols)


class Rows:
    """pandas' own positional access only takes genuine integers"""

    def __init__(self, iloc):
        self.iloc = iloc

    @staticmethod
    def plain(k):
        if isinstance(k, slice):
            return slice(*[None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)])
        return k

    def __getitem__(self, k):
        return self.iloc[tuple(self.plain(x) for x in k) if isinstance(k, tuple) else self.plain(k)]

    def __setitem__(self, k, v):
        self.iloc[self.plain(k)] = v

    def __getattr__(self, n):
        return getattr(self.iloc, n)


def frame_class():
    import pandas as pd

    class Frame(pd.DataFrame):
        @property
        def _constructor(self):
            return Frame

        @property
        def iloc(self):
            return Rows(super().iloc)

        def resample(self, rule, *a, **k):
            return Resampled(self, rule)

    return Frame


class Pickle:
    def __getattr__(self, n):
        return getattr(pickle, n)

    @staticmethod
    def load(*_a, **_k):
        return LOG["frame"].copy()


def _patch():
    import shepherd_data.ivonne as m
    m.Writer = Rec
    m.pickle = Pickle()


def extra_shims():
    _patch()


def setup_con():
    _patch()


def cases(tier):
    q = tier == "quick"
    out = []
    for rows in (1, 2, 3, 4, 5, 7, 9, 10) if q else range(1, 15):
        for fn in ("voc", "samples", "curves"):
            for dur in (False, True):
                for block in (4,) if q and rows not in (7, 10) else (3, 4):
                    out.append((f"{fn}/{rows}/{block}/{'part' if dur else 'all'}", fn, {"rows": rows, "dur": dur, "block": block}))
    out += [(f"tracker/{rows}", "samples", {"rows": rows, "dur": False, "block": 4, "default": True}) for rows in (2, 3)]
    out += [(f"pts/{p}", "curves", {"rows": 3, "dur": False, "block": 4, "pts": p}) for p in (3, 6)]
    out += [(f"exists/{fn}", "exists", {"fn": fn}) for fn in ("convert_2_ivcurves", "convert_2_ivsamples", "upsample_2_isc_voc")]
    return out


def start(sx, rows, dur, block, interval, up, sym_ab=False, c=None):
    import pandas as pd
    t0 = 100.0 if rows % 2 else 0.0
    free = {k for k in range(rows) if k in (0, rows - 1) or k % block in (0, block - 1) and rows <= 2 * block}
    d = {"time": [round(t0 + 0.02 * k, 6) for k in range(rows)]}
    if sym_ab:
        # rows inside of blocks are either always or never short of current
        d["a"] = [sx.real(f"a{k}", 0, 1) if k in free else sx.real(f"a{k}", 0.1, 1) if k % 2 else sx.real(f"a{k}", 0, 1e-4)
                  for k in range(rows)]
        d["b"] = [sx.real(f"b{k}", 0, 0.01) if k in free else sx.real(f"b{k}", 0, 1e-28) if k % 2 else sx.real(f"b{k}", 1e-3, 0.01)
                  for k in range(rows)]
        d["c"] = [c * (1 + 0.1 * k) for k in range(rows)]
    else:
        d["a"] = [0.001 + 0.013 * ((k * 7) % 11) for k in range(rows)]
        d["b"] = [1e-6 * (1 + k % 3) for k in range(rows)]
        # the constant follows from an arbitrary open-circuit voltage
        voc = [sx.real(f"voc{k}", 0.25, 10) if k in free else sx.real(f"voc{k}", 0.25, 3.2) if k % 3 else sx.real(f"voc{k}", 5.1, 10)
               for k in range(rows)]
        d["c"] = [math.log(a / b + 1) / v for a, b, v in zip(d["a"], d["b"], voc)]
        d["voc"] = voc
    symcol = {"a", "b"} if sym_ab else {"c"}
    df = {k: pd.Series(d[k], dtype=object if sx.sym and k in symcol else float) for k in ("time", "a", "b", "c")}
    LOG.clear()
    LOG.update(interval=interval, max=block * up, writers=[], frame=frame_class()(df) if sx.sym else pd.DataFrame(df))
    limit, n = None, rows
    if dur:
        limit = sx.real("duration", -0.01, 0.03 * rows)
        for k in range(2 * rows):
            sx.assume(abs(limit - 0.02 * k) > 1e-6)
        n = 0
        for k in range(1, rows + 1):
            if sx.is_true(limit > 0.02 * k):
                n = k
    path = sx.tmpdir() / "in.iv"
    path.write_bytes(b"x")
    return d, path, limit, n


def opened(path):
    from shepherd_data.ivonne import Reader
    return Reader(path, verbose=False)


def result(sx, path, datatype, window=None):
    ws = LOG["writers"]
    sx.check_eq("one file", len(ws), 1)
    if len(ws) != 1:
        return None
    w = ws[0]
    sx.check("written to the requested path", str(w.args["path"]) == str(path))
    kind = w.args["datatype"]
    sx.check_eq("data type", str(getattr(kind, "value", kind)), datatype)
    sx.check("mode is harvester", w.args["mode"] in (None, "harvester") or str(getattr(w.args["mode"], "value", "")) == "harvester")
    if window is not None:
        sx.check_eq("window", w.args["window"], window)
    sx.check_eq("source is named", w.host, "IVonne")
    sx.check("file is closed", not w.open)
    return w


def clip(sx, v, top):
    return sx.fmin(v, top)


def flat(sx, w):
    t, v, i = [], [], []
    for a, b, c in w.parts:
        n = sx.length(a)
        sx.check("equally long", sx.both(sx.length(b) == n, sx.length(c) == n))
        n = int(n)
        for lst, src in ((t, a), (v, b), (i, c)):
            lst.extend(src[k] for k in range(n))
    return t, v, i


def compare(sx, got, d, n, rows, up, want_v, want_i):
    t, v, i = got
    length = max(0, min(n, rows - 1)) * up
    sx.check_eq("covers the duration", len(t), length)
    if len(t) != length:
        return
    for k in range(length):
        sx.check_close(f"time {k}", t[k], d["time"][0] + k * 0.02 / up, 1e-7)
        if k % up == 0:
            sx.check_close(f"voltage {k}", v[k], want_v[k // up], EPS)
            sx.check_close(f"current {k}", i[k], want_i[k // up], EPS)
    sx.observe("n", length)


def voc(sx, rows, dur, block):
    d, path, limit, n = start(sx, rows, dur, block, 10_000_000, 2)
    top = (5.0, 3.3, 5)[rows % 3]
    out = path.with_name("out.h5")
    with opened(path) as rd:
        rd.upsample_2_isc_voc(out, v_max=top, duration_s=limit)
    w = result(sx, out, "isc_voc")
    if w:
        compare(sx, flat(sx, w), d, n, rows, 2, [clip(sx, x, top) for x in d["voc"]], d["a"])


def samples(sx, rows, dur, block, default=False):
    from shepherd_data.mppt import MPPTracker, OptimalTracker
    d, path, limit, n = start(sx, rows, dur, block, 10_000_000, 2, sym_ab=default, c=2.5)
    top = 3.3 if default else (5.0, 3.3, 5)[rows % 3]
    out = path.with_name("out.h5")
    if default:
        # compared with the tracker named by the documentation (its own values: C41), coarse grid
        import shepherd_data.ivonne as m
        seen = []

        class Coarse(OptimalTracker):
            def __init__(self, v_max=5.0, pts_per_curve=4):
                seen.append(v_max)
                super().__init__(v_max, 4)

        d["voc"] = None
        keep, m.OptimalTracker = m.OptimalTracker, Coarse
        m_get = m.get_voc
        m.get_voc = lambda co: co["a"] * 0 + 1.0
        try:
            with opened(path) as rd:
                rd.convert_2_ivsamples(out, v_max=top, duration_s=limit)
        finally:
            m.OptimalTracker, m.get_voc = keep, m_get
        sx.check("tracker knows the limit", seen == [top])
        w = result(sx, out, "ivsample")
        if not w:
            return
        t, v, i = flat(sx, w)
        sx.check_eq("covers the recording", len(t), (rows - 1) * 2)
        if len(t) != (rows - 1) * 2:
            return
        for k in range(rows - 1):
            power = [x * sx.fmax(0, d["a"][k] - d["b"][k] * (math.exp(d["c"][k] * x) - 1)) for x in (0, top / 3, top * 2 / 3, top)]
            sx.check(f"optimal power {k}", sx.both(*[v[2 * k] * i[2 * k] >= p - 1e-6 * max(1, math.exp(d["c"][k] * top) * 1e-6) for p in power]))
        return

    class Tracker(MPPTracker):
        """half of the open-circuit voltage, current from the position in the recording"""

        def process(self, coeffs):
            coeffs["v"] = coeffs["voc"] / 2
            coeffs["i"] = coeffs["a"] * 3
            return coeffs

    with opened(path) as rd:
        rd.convert_2_ivsamples(out, v_max=top, duration_s=limit, tracker=Tracker(top, 3))
    w = result(sx, out, "ivsample")
    if w:
        compare(sx, flat(sx, w), d, n, rows, 2, [clip(sx, x, top) / 2 for x in d["voc"]], [3 * a for a in d["a"]])


def curves(sx, rows, dur, block, pts=2):
    c = 12 if rows % 4 == 2 else 2.5
    up = 2
    d, path, limit, n = start(sx, rows, dur, block, 10_000_000 // pts, up * pts, sym_ab=True, c=c / (1 + 0.1 * rows))
    top = (5.0, 3.3, 5)[rows % 3]
    out = path.with_name("out.h5")
    # curves take pts samples, blocks are counted in rows
    with opened(path) as rd:
        rd.convert_2_ivcurves(out, v_max=top, pts_per_curve=pts, duration_s=limit)
    w = result(sx, out, "ivcurve", pts)
    if not w:
        return
    length = max(0, min(n, rows - 1)) * up
    sx.check_eq("covers the duration", len(w.parts), length)
    if len(w.parts) != length:
        return
    for k, (t, v, i) in enumerate(w.parts):
        sx.check_close(f"time {k}", t, d["time"][0] + k * 0.02 / up, 1e-7)
        sx.check("one curve each", sx.both(sx.length(v) == pts, sx.length(i) == pts))
        for j in range(pts):
            x = top * j / (pts - 1)
            sx.check_close(f"voltage {k}/{j}", v[j], x, EPS)
            if k % up == 0:
                r = k // up
                sx.check_close(f"current {k}/{j}", i[j], sx.fmax(0, d["a"][r] - d["b"][r] * (math.exp(d["c"][r] * x) - 1)),
                               1e-8 * max(1, math.exp(d["c"][r] * x)))
    sx.observe("n", length)


def exists(sx, fn):
    d, path, limit, n = start(sx, 5, True, 4, 10_000_000, 2)
    out = path.with_name("out.h5")
    out.write_bytes(b"precious")
    with opened(path) as rd:
        getattr(rd, fn)(out, duration_s=limit)
    sx.check_eq("nothing is written", len(LOG["writers"]), 0)
    sx.check("the existing file stays", out.read_bytes() == b"precious")
    sx.observe("done", n)
