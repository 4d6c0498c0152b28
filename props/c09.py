"""C09 file validation accepts exactly the structurally sound recordings"""
from .common import closing, iso_time, recording

BOUNDS = ("presence of every attribute/dataset symbolic; mode and datatype from lists of known and unknown texts; "
          "window any int in -2^31..2^31; dataset lengths 0..2^20 independent; all compression kinds; log: 0..5 "
          "entries of any level, any threshold, extra groups with/without level dataset")
OUTSIDE = "the HDF5 library; files h5py itself can not open (see C34)"
STUBS = ["h5py -> in-memory datasets/attributes with lazily decided presence", "logging disabled"]

MODES = ("harvester", "emulator", "bogus", "", "ivsample", "Harvester")
DTYPES = ("ivsample", "ivsamples", "ivcurve", "isc_voc", "bogus", "", "IVSAMPLE")
CANON = {"ivsamples": "ivsample", "ivcurves": "ivcurve", "ivsurface": "ivcurve"}
ALLOWED = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}


def cases(tier):
    out = [("no-data-group", "no_data", {})]
    for m in MODES:
        out.append((f"values/{m}", "values", {"mode": m}))
    for d in ("voltage", "current", "time"):
        out.append((f"missing/{d}", "missing", {"ds": d}))
    out += [("missing/attrs", "missing_attrs", {}), ("soft", "soft", {}),
            ("soft/compression", "compression", {}), ("reader", "reader", {})]
    for n in (0, 1, 2, 3, 5):
        out.append((f"errors/{n}", "errors", {"n": n}))
    out.append(("errors/groups", "error_groups", {}))
    out.append(("errors/self", "error_default", {}))
    return out


def good(sx, path, **kw):
    n = kw.pop("n", 20_000)
    recording(sx, path, iso_time(sx, n, 5, 10_000), sx.vec("v", n, 0, 2**32 - 1),
              sx.vec("c", n, 0, 2**32 - 1), **kw)


def opened(sx):
    """a reader on a sound file, whose file is then swapped for the one under test"""
    from shepherd_core import Reader
    p = sx.tmpdir() / "good.h5"
    recording(sx, p, iso_time(sx, 10_000, 5, 10_000), sx.vec("gv", 10_000, 0, 2**32 - 1),
              sx.vec("gc", 10_000, 0, 2**32 - 1))
    return Reader(p, verbose=None)


def verdict(sx, path, exp):
    rd = opened(sx)
    rd.h5file.close()
    rd.h5file = sx.h5_open(path)
    with closing(rd):
        got = rd.is_valid()
    sx.check("boolean", got is True or got is False)
    sx.check("valid exactly when sound", sx.iff(got, exp))
    sx.observe("valid", got)


def values(sx, mode):
    path = sx.tmpdir() / "a.h5"
    d = sx.choice("dtype", DTYPES)
    win = sx.int("window", -2**31, 2**31)
    good(sx, path, mode=mode, datatype=d, window=win)
    d = CANON.get(d, d)
    ok = mode in ALLOWED and d in ALLOWED[mode]
    verdict(sx, path, sx.both(ok, win >= 1) if d == "ivcurve" else ok)


def no_data(sx):
    path = sx.tmpdir() / "a.h5"
    f = sx.h5(path)
    if sx.flag("mode"):
        f.attrs["mode"] = "harvester"
    if sx.flag("other"):
        f.create_group("gpio")
    f.close()
    verdict(sx, path, False)


def missing(sx, ds):
    path = sx.tmpdir() / "a.h5"
    good(sx, path)
    f = sx.h5_open(path, "r+")
    d = f["data"]
    a, b = sx.bool("has_gain"), sx.bool("has_offset")
    p = sx.bool("has_ds")
    for k, c in (("gain", a), ("offset", b)):
        val = d[ds].attrs[k]
        sx.maybe_attr_del(d[ds], k, val, c)
    sx.maybe_child(d, ds, p)
    f.close()
    verdict(sx, path, sx.both(a, b, p))


def missing_attrs(sx):
    path = sx.tmpdir() / "a.h5"
    good(sx, path, attrs=False)
    f = sx.h5_open(path, "r+")
    m, w, t, h = sx.bool("m"), sx.bool("w"), sx.bool("t"), sx.bool("h")
    sx.maybe_attr(f, "mode", "harvester", m)
    sx.maybe_attr(f, "hostname", "x", h)
    sx.maybe_attr(f["data"], "window_samples", 0, w)
    sx.maybe_attr(f["data"], "datatype", "isc_voc", t)
    f.close()
    verdict(sx, path, sx.both(m, w, t))


def soft(sx):
    """soft flaws never invalidate"""
    path = sx.tmpdir() / "a.h5"
    n = [sx.int(f"n{i}", 0, 2**20) for i in range(3)]
    mode = sx.choice("mode", ("harvester", "emulator"))
    win = sx.int("window", 0, 10)
    recording(sx, path, iso_time(sx, n[0], 5, 10_000), sx.vec("v", n[1], 0, 2**32 - 1),
              sx.vec("c", n[2], 0, 2**32 - 1), mode=mode, window=win,
              hostname="x" if sx.flag("host") else None)
    f = sx.h5_open(path, "r+")
    if sx.flag("log"):
        g = f.create_group("sheep")
        g.create_dataset("level", data=sx.vec("lv", 3, 0, 60, dtype="u1"), dtype="u1")
    f.close()
    verdict(sx, path, True)


def compression(sx):
    path = sx.tmpdir() / "a.h5"
    good(sx, path)
    f = sx.h5_open(path, "r+")
    for d in ("voltage", "time"):
        comp = sx.choice(f"comp_{d}", (None, "lzf", ("gzip", 1), ("gzip", 9)))
        sx.recompress(f["data"], d, comp)
    f.close()
    verdict(sx, path, True)


def reader(sx):
    """a reader can be made on files with soft flaws, and is_valid is repeatable"""
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 0, 2**20)
    win = sx.int("w", -3, 3)
    d = sx.choice("d", ("ivsample", "ivcurve", "isc_voc"))
    recording(sx, path, iso_time(sx, n, 5, 0), sx.vec("v", n, 0, 2**32 - 1),
              sx.vec("c", n, 0, 2**32 - 1), datatype=d, window=win)
    rd = Reader(path, verbose=None)
    with closing(rd):
        e = (win >= 1) if d == "ivcurve" else True
        sx.check("first", sx.iff(rd.is_valid(), e))
        sx.check("again", sx.iff(rd.is_valid(), e))


def with_log(sx, n, group="sheep"):
    path = sx.tmpdir() / "a.h5"
    good(sx, path)
    f = sx.h5_open(path, "r+")
    g = f.create_group(group)
    lv = sx.array("level", n, 0, 60, dtype="u1")
    g.create_dataset("level", data=lv, dtype="u1")
    g.create_dataset("time", data=sx.vec("lt", n, 0, 2**62, dtype="u8"), dtype="u8")
    f.close()
    return path, lv


def count(sx, lv, n, thr):
    r = 0
    for i in range(n):
        r = r + sx.ite(lv[i] >= thr, 1, 0)
    return r


def errors(sx, n):
    from shepherd_core import Reader
    path, lv = with_log(sx, n)
    thr = sx.int("thr", 0, 70)
    rd = Reader(path, verbose=None)
    with closing(rd):
        got = rd.count_errors_in_log("sheep", thr)
        sx.check("number of entries at or above the level", got == count(sx, lv, n, thr))
        sx.observe("count", got)


def error_default(sx):
    from shepherd_core import Reader
    path, lv = with_log(sx, 3)
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("default group and level", rd.count_errors_in_log() == count(sx, lv, 3, 40))


def error_groups(sx):
    """missing group or level dataset counts as no errors"""
    from shepherd_core import Reader
    path, lv = with_log(sx, 2, "other")
    f = sx.h5_open(path, "r+")
    if sx.flag("g"):
        f.create_group("sheep")
    f.close()
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("nothing there", rd.count_errors_in_log("sheep", 0) == 0)
        sx.check("other group", rd.count_errors_in_log("other", 30) == count(sx, lv, 2, 30))
