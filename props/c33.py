"""C33 a cut keeps exactly the requested range and all descriptions of the source"""
from . import c32
from .common import CAL, closing, iso_time, recording

BOUNDS = ("recordings of 900..252345 samples (complete and incomplete buffers) at 1, 10, 100 and 500 ksps, any start/end as int or "
          "float -1..1.5 x runtime or missing, factors 1, 2, 2.9, 10, 100 and refused ones, arbitrary content; derived "
          "files with arbitrary mode/datatype/window/calibration/hostname/config")
OUTSIDE = ("coefficients of the low-pass, double rounding, name of the derived file (two ranges that differ by less than 1 ms share "
           "one), numbers not of type int or float (taken as missing)")
STUBS = ["scipy.signal.sosfilt as in C32", "sample-rate of the derived file at its end is given (source / factor), its plausibility "
         "check is skipped", "h5py -> in-memory datasets", "f-strings with symbolic numbers -> place-holder in the file name"]
MODULES = ("shepherd_data",)
CONF = {"virtual_harvester": {"voltage_step_mV": 12, "name": "x", "list": [1, 2.5, None]}, "b": True}
NOW = {"rate": None}


def extra_shims():
    c32.extra_shims()
    import shepherd_data.reader as m

    class W(m.CoreWriter):
        def _refresh_file_stats(self):
            self.samplerate_sps = NOW["rate"]
            self.sample_interval_ns = round(1e9 / NOW["rate"])
            self.runtime_s, self.file_size, self.data_rate = 1.0, 1, 1.0

        def is_valid(self):
            return True

    m.CoreWriter = W


setup_con = c32.setup_con


def cases(tier):
    out = []
    lens = {100_000: [900, 1000, 12_345, 15_001, 20_000, 252_345], 1000: [999, 1000, 3456, 25_555], 10_000: [12_345],
            500_000: [50_000]}
    facs = [1, 2, 2.9, 10, 100]
    for rate, ns in lens.items():
        for n in ns:
            for f in facs:
                if n / f < 900 and f > 10:
                    continue
                out.append((f"range/{rate}/{n}/x{f}", "cut", {"rate": rate, "n": n, "f": f}))
    for f in (0, 0.5, 0.999, -3):
        out.append((f"factor/{f}", "factor", {"f": f}))
    for what in ("none", "mode", "cal", "host", "config"):
        out.append((f"meta/{what}", "meta", {"what": what}))
    out.append(("existing", "existing", {}))
    return out


def limit(sx, name, top):
    kind = sx.choice(f"{name}_type", ["none", "float", "int"])
    if kind == "none":
        return None
    if kind == "int":
        return sx.int(name, -1, int(top * 1.5) + 1)
    return sx.real(name, -1, top * 1.5)


def content(sx, rate, n, path, **kw):
    if sx.sym:
        v, c = sx.vec("v", n, 0, 2**32 - 1), sx.vec("c", n, 0, 2**32 - 1)
    else:
        import numpy as np
        sx.vec("v", 1), sx.vec("c", 1)
        # two distinct ramps show every misplaced sample
        v, c = (np.arange(n) * 997 + 5).astype("u4"), (np.arange(n) * 1013 + 70_000).astype("u4")
    dt = 10**9 // rate
    t = iso_time(sx, n, sx.int("t0", 0, 10**15), dt)
    recording(sx, path, t, v, c, **kw)
    return t, v, c


def run(sx, path, start, end, f, rate):
    from shepherd_data import Reader
    c32.EXP.update(sx=sx, src=None, sos=None)
    NOW["rate"] = max(1, round(rate / max(1, f // 1))) if f == f and f > 0 else rate
    with closing(Reader(path, verbose=None)) as r:
        return sx.attempt(lambda: r.cut_and_downsample_to_file(start, end, f), ValueError)


def cut(sx, rate, n, f):
    d = sx.tmpdir()
    path = d / "rec.h5"
    t, v, c = content(sx, rate, n, path)
    start, end = limit(sx, "start", n / rate), limit(sx, "end", n / rate)
    ff = int(f // 1)
    s = 0 if start is None else sx.rnd(sx.fmax(0, start) * rate)
    e = n if end is None else sx.fmin(n, sx.rnd(end * rate))
    # half samples are decided by floating point rounding
    for x in (start, end):
        if x is not None:
            frac = x * rate - sx.floor(x * rate)
            sx.assume(abs(frac - 0.5) > 1e-3)
    before = {p.name for p in d.iterdir()}
    ok, res = run(sx, path, start, end, f, rate)
    m = sx.floor((e - s) / ff)
    if f == ff:
        sx.check("refused iff reversed or too small", sx.iff(ok, e - s >= 1000 * f))
    else:
        sx.check("refused if reversed or too small", sx.either(not ok, m >= 1000))
    if not ok:
        sx.check("no file created on refusal", {p.name for p in d.iterdir()} == before)
        sx.observe("refused", True)
        return
    sx.observe("refused", False)
    out = NOW["rate"]
    own = str(res) == str(path.resolve())
    if own:
        sx.check("source is only named for the whole recording", sx.both(f == 1, s == 0, e == n))
    if out == 100_000 and not own:
        m = m - m % 10_000
    h = sx.h5_open(res)
    g = h["data"]
    gt, gv, gc = g["time"], g["voltage"], g["current"]
    for name, x in (("time", gt), ("voltage", gv), ("current", gc)):
        sx.check_eq(f"length of {name}", sx.length(x), m)
    if sx.sym:
        if ff > 1:
            G = c32.EXP["G"]

            def same(new, old, k):
                y = G(k * ff, sx.at(old, s + k * ff))
                return sx.implies(sx.both(y >= 0, y <= 2**32 - 1), sx.both(sx.num(sx.at(new[:], k)) - y <= 1, y - sx.num(sx.at(new[:], k)) <= 1))
        else:
            def same(new, old, k):
                return sx.at(new[:], k) == sx.at(old, s + k)
        sx.forall("content", m, lambda k: [("time", sx.at(gt[:], k) == sx.at(t, s + k * ff)), ("voltage", same(gv, v, k)),
                                           ("current", same(gc, c, k))])
    else:
        import numpy as np
        m, s, e = int(m), int(s), int(e)
        sx.forall("content", min(m, len(gt)), lambda k, _t=gt[:], _s=t[s:e:ff]: [("time", int(_t[k]) == int(_s[k]))])
        for new, old in ((gv[:], v), (gc[:], c)):
            ref = old[s:e].astype("f8")
            if ff > 1:
                sx.check("a filter is used", c32.EXP["sos"] is not None)
                if c32.EXP["sos"] is None:
                    return
                ref = c32._real["sosfilt"](c32.EXP["sos"], ref)
            ref = ref[::ff][:m]
            k = min(len(ref), len(new))
            ref, new = ref[:k], np.asarray(new[:k], dtype="f8")
            good = (ref < 0) | (ref > 2**32 - 1) | (np.abs(ref - new) <= 1.001)
            sx.forall("content", len(good), lambda k: bool(good[k]))
    h.close()


def factor(sx, f):
    d = sx.tmpdir()
    path = d / "rec.h5"
    content(sx, 100_000, 20_000, path)
    start, end = limit(sx, "start", 0.2), limit(sx, "end", 0.2)
    before = {p.name for p in d.iterdir()}
    ok, res = run(sx, path, start, end, f, 100_000)
    sx.check("factor below one is refused", not ok)
    sx.check("no file created on refusal", {p.name for p in d.iterdir()} == before)


def meta(sx, what):
    d = sx.tmpdir()
    path = d / "rec.h5"
    mode, dtype = "harvester", "ivsample"
    host, win, cal, extra = "unit", 0, dict(CAL), {}
    if what == "mode":
        mode, dtype = sx.choice("mode", [("harvester", "ivsample"), ("harvester", "isc_voc"), ("harvester", "ivcurve"),
                                         ("emulator", "ivsample")])
        win = sx.int("window", 1, 2**31)
    if what == "cal":
        cal = {k: (sx.choice(f"g_{k}", [1e-9, 2.5e-10, 3e-3]), sx.choice(f"o_{k}", [0.0, -1e-3, 5.0])) for k in ("voltage", "current")}
        cal["time"] = (1e-9, 0.0)
    if what == "host":
        host = sx.choice("host", ["sheep0", "x y", "", None])
    if what == "config":
        import yaml
        conf = sx.choice("conf", [CONF, {}, None])
        if conf is not None:
            extra = {"config": yaml.safe_dump(conf, default_flow_style=False, sort_keys=False)}
    content(sx, 100_000, 30_000, path, mode=mode, datatype=dtype, window=win, hostname=host, cal=cal, data_attrs=extra)
    f = sx.choice("f", [1, 10])
    start = sx.choice("start", [None, 0.05])
    ok, res = run(sx, path, start, None, f, 100_000)
    sx.check("accepted", ok)
    if not ok:
        return
    h = sx.h5_open(res)
    g = h["data"]
    sx.check_eq("mode", h.attrs["mode"], mode)
    sx.check_eq("hostname", h.attrs["hostname"], "unknown" if host is None else host, ) if host is not None or str(res) != str(path.resolve()) else None
    sx.check_eq("datatype", g.attrs["datatype"], dtype)
    sx.check_eq("window", g.attrs["window_samples"], win)
    for k, (gain, off) in cal.items():
        sx.check_eq(f"gain {k}", g[k].attrs["gain"], gain)
        sx.check_eq(f"offset {k}", g[k].attrs["offset"], off)
    if what == "config":
        import yaml
        got = yaml.safe_load(g.attrs["config"]) if "config" in g.attrs else {}
        sx.check("config", (got or {}) == (conf or {}))
    h.close()
    src = sx.h5_open(path)
    sx.check_eq("source untouched", sx.length(src["data"]["voltage"]), 30_000)
    src.close()


def existing(sx):
    """a second run with the same request leaves the first result alone"""
    d = sx.tmpdir()
    path = d / "rec.h5"
    content(sx, 100_000, 30_000, path)
    f = sx.choice("f", [1, 2, 10])
    start, end = sx.choice("start", [None, 0, 0.1]), sx.choice("end", [None, 0.2, 0.25, 5])
    ok, res = run(sx, path, start, end, f, 100_000)
    sx.check("accepted", ok)
    if not ok:
        return
    sx.check("not the source itself", str(res) != str(path.resolve()) or (f == 1 and start in (None, 0) and end in (None, 5)))
    if str(res) == str(path.resolve()):
        h = sx.h5_open(path)
        sx.check_eq("source untouched", sx.length(h["data"]["voltage"]), 30_000)
        h.close()
        return
    h = sx.h5_open(res, "r+")
    h.attrs["note"] = "mine"
    n = sx.length(h["data"]["time"])
    h.close()
    names = {p.name for p in d.iterdir()}
    ok, again = run(sx, path, start, end, f, 100_000)
    sx.check("second run accepted", ok)
    if ok:
        sx.check("result is reported again", str(again) == str(res))
    h = sx.h5_open(res)
    sx.check("result is not overwritten", "note" in h.attrs and h.attrs["note"] == "mine")
    sx.check_eq("length kept", sx.length(h["data"]["time"]), n)
    h.close()
    sx.check("no further file", {p.name for p in d.iterdir()} == names)
