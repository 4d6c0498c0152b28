"""C08 what is written to a recording is what is read back"""
from .common import closing, iso_time, recording

BOUNDS = ("all combinations of mode / datatype / calibration kind given or omitted, window size any int in "
          "-2^31..2^31 or omitted, calibration gain 1e-12..1e4 and offset symbolic; modified files with arbitrary "
          "previous metadata; SI data: 10000..20000 samples, any value inside the register range, gain/offset "
          "from a list of 3")
OUTSIDE = "the HDF5 library; yaml text (C code) for configs: two nested sample configs"
STUBS = ["h5py -> in-memory datasets/attributes", "logging disabled"]

MODES = (None, "harvester", "emulator", "bogus")
DTYPES = (None, "ivsample", "ivcurve", "isc_voc", "bogus")
ALLOWED = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}
CONF = {"virtual_harvester": {"voltage_step_mV": 12, "name": "x", "list": [1, 2.5, None]}, "b": True}


def cases(tier):
    out = [(f"fresh/{m}/{d}", "fresh", {"mode": m, "dtype": d}) for m in MODES for d in DTYPES]
    out += [(f"modify/{m}/{d}", "modify", {"mode": m, "dtype": d}) for m in MODES for d in DTYPES]
    for k in ("none", "series", "hrv", "emu"):
        out.append((f"cal/{k}/fresh", "cal", {"kind": k, "mod": False}))
        out.append((f"cal/{k}/modify", "cal", {"kind": k, "mod": True}))
    for g, o in ((3e-9, 0.0), (2.5e-10, -1e-6), (1e-3, 0.25)):
        out.append((f"si/{g}/{o}", "si", {"g": g, "o": o}))
    out += [("texts", "texts", {}), ("typed-dtype", "typed", {})]
    return out


def window(sx):
    if sx.flag("window_given"):
        return sx.int("window", -2**31, 2**31)
    return None


def write(sx, path, mode, dtype, win, modify):
    from shepherd_core import Writer
    kw = {"verbose": None, "modify_existing": modify}
    if mode is not None:
        kw["mode"] = mode
    if dtype is not None:
        kw["datatype"] = dtype
    if win is not None:
        kw["window_samples"] = win
    return sx.attempt(lambda: Writer(path, **kw), Exception)


def readback(sx, path, mode, dtype, win):
    from shepherd_core import Reader
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("mode", rd.get_mode() == mode)
        dt = rd.get_datatype()
        sx.check("datatype", dt is not None and dt.name == dtype)
        sx.check("window", rd.get_window_samples() == win)
        sx.observe("window", rd.get_window_samples())
    return rd


def judge(sx, ok, res, path, m, d, w, explicit=True):
    refuse = m not in ALLOWED or d not in ALLOWED[m]
    if refuse:
        sx.check("unsupported combination refused", not ok)
        return
    if d == "ivcurve" and (explicit or ok):
        if sx.is_true(w < 1):
            if explicit:
                sx.check("ivcurve without window refused", not ok)
            return
    sx.check("accepted", ok)
    if not ok:
        return
    with closing(res):
        sx.check("mode while open", res.get_mode() == m)
        sx.check("window while open", res.get_window_samples() == w)
    readback(sx, path, m, d, w)


def fresh(sx, mode, dtype):
    path = sx.tmpdir() / "a.h5"
    win = window(sx)
    ok, res = write(sx, path, mode, dtype, win, False)
    judge(sx, ok, res, path, mode or "harvester", dtype or "ivsample", 0 if win is None else win)


def modify(sx, mode, dtype):
    path = sx.tmpdir() / "a.h5"
    m0 = sx.choice("m0", ("harvester", "emulator"))
    d0 = sx.choice("d0", ALLOWED[m0])
    w0 = sx.int("w0", 1 if d0 == "ivcurve" else 0, 2**31)
    recording(sx, path, iso_time(sx, 10_000, 5, 10_000), sx.vec("v", 10_000, 0, 2**32 - 1),
              sx.vec("c", 10_000, 0, 2**32 - 1), mode=m0, datatype=d0, window=w0, hostname="h",
              data_attrs={"config": "a: 3\n"})
    win = window(sx)
    ok, res = write(sx, path, mode, dtype, win, True)
    m, d = mode or m0, dtype or d0
    judge(sx, ok, res, path, m, d, w0 if win is None else win, explicit=dtype is not None)
    if ok:
        from shepherd_core import Reader
        rd = Reader(path, verbose=None)
        with closing(rd):
            sx.check("hostname kept", rd.get_hostname() == "h")
            sx.check("config kept", rd.get_config() == {"a": 3})


def sympair(sx, p):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    return CalibrationPair(gain=sx.real(f"{p}_g", 1e-12, 1e4), offset=sx.real(f"{p}_o", -1e6, 1e6))


def cal(sx, kind, mod):
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models.base import calibration as c
    path = sx.tmpdir() / "a.h5"
    old = {k: (sx.real(f"old_{k}_g", 1e-12, 1e4), sx.real(f"old_{k}_o", -1e6, 1e6))
           for k in ("voltage", "current", "time")}
    if mod:
        recording(sx, path, iso_time(sx, 10_000, 5, 0), sx.vec("v", 10_000, 0, 2**32 - 1),
                  sx.vec("c", 10_000, 0, 2**32 - 1), cal=old)
    given = None
    tdef = c.CalibrationSeries().time
    exp = {"time": (tdef.gain, tdef.offset)}
    if kind == "series":
        given = c.CalibrationSeries(voltage=sympair(sx, "V"), current=sympair(sx, "C"),
                                    time=sympair(sx, "T"))
        exp = {k: (getattr(given, k).gain, getattr(given, k).offset) for k in old}
    elif kind == "hrv":
        a, b = sympair(sx, "V"), sympair(sx, "C")
        given = c.CalibrationHarvester(adc_V_Sense=a, adc_C_Hrv=b, dac_V_Hrv=sympair(sx, "x"))
        exp |= {"voltage": (a.gain, a.offset), "current": (b.gain, b.offset)}
    elif kind == "emu":
        # recordings of the emulator: voltage is what the DAC put out, current what target A drew
        a, b = sympair(sx, "V"), sympair(sx, "C")
        given = c.CalibrationEmulator(dac_V_A=a, adc_C_A=b, adc_C_B=sympair(sx, "y"))
        exp |= {"voltage": (a.gain, a.offset), "current": (b.gain, b.offset)}
    elif mod:
        exp = old
    else:
        d = c.CalibrationSeries()
        exp = {k: (d[k].gain, d[k].offset) for k in old}
    kw = {} if given is None else {"cal_data": given}
    w = Writer(path, verbose=None, modify_existing=mod, **kw)
    with closing(w):
        check_cal(sx, "while open", w, exp)
    rd = Reader(path, verbose=None)
    with closing(rd):
        check_cal(sx, "read back", rd, exp)


def check_cal(sx, lab, rd, exp):
    got = rd.get_calibration_data()
    for k, (g, o) in exp.items():
        sx.check(f"{lab}: {k} gain", getattr(got, k).gain == g)
        sx.check(f"{lab}: {k} offset", getattr(got, k).offset == o)


def si(sx, g, o):
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models.base import calibration as c
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 10_000, 20_000)
    top = 2**32 - 1
    P = c.CalibrationPair
    series = c.CalibrationSeries(voltage=P(gain=g, offset=o), current=P(gain=2 * g, offset=-o),
                                 time=P(gain=1e-9, offset=0))
    tv = sx.vec("tv", n, -0.49, top + 0.49, kind="real", dtype="f8")
    tc = sx.vec("tc", n, -0.49, top + 0.49, kind="real", dtype="f8")
    v, i = tv * g + o, tc * (2 * g) - o
    t0 = sx.real("t0", 0, 1e6)
    with Writer(path, cal_data=series, verbose=None) as w:
        w.append_iv_data_si(t0, v, i)
    m = (n // 10_000) * 10_000
    rd = Reader(path, verbose=None)
    with closing(rd):
        d = rd.h5file["data"]
        for k in ("time", "voltage", "current"):
            sx.check(f"length {k}", d[k].shape[0] == m)
        bufs = list(rd.read_buffers())
        sx.check("buffers", len(bufs) == sx.trunc(m // 10_000))
        k = sx.int("k", 0, 9_999)
        for b, (t, bv, bi) in enumerate(bufs):
            e = 1e-6 * g
            j = b * 10_000 + k
            sx.check_le(f"voltage {b}", abs(sx.at(bv, k) - sx.at(v, j)), 0.5 * g + e)
            sx.check_le(f"current {b}", abs(sx.at(bi, k) - sx.at(i, j)), g + e)
            sx.check_le(f"time {b}", abs(sx.at(t, k) - (t0 + j * 1e-5)), 0.6e-9)


def texts(sx):
    """hostname, config and free attributes"""
    from shepherd_core import Reader, Writer
    path = sx.tmpdir() / "a.h5"
    host = sx.choice("host", ("sheep3", "artificial", ""))
    conf = sx.choice("conf", (CONF, {}, {"x": [1, 2]}))
    key = sx.flag("extra")
    order = sx.flag("order")
    with Writer(path, verbose=None) as w:
        if order:
            w.store_hostname(host)
        w.store_config(conf)
        if not order:
            w.store_hostname(host)
        if key:
            w["note"] = "hello"
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("hostname", rd.get_hostname() == host)
        sx.check("config", rd.get_config() == conf)
        sx.check("attribute", rd.h5file.attrs.get("note") == ("hello" if key else None))
    # metadata survives a modification that does not mention it
    with Writer(path, modify_existing=True, verbose=None):
        pass
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("hostname kept", rd.get_hostname() == host)
        sx.check("config kept", rd.get_config() == conf)


def typed(sx):
    from shepherd_core.data_models import EnergyDType
    path = sx.tmpdir() / "a.h5"
    mode = sx.choice("mode", ("harvester", "emulator"))
    d = sx.choice("d", list(EnergyDType))
    win = sx.int("window", 0, 1000)
    ok, res = write(sx, path, mode, d, win, False)
    judge(sx, ok, res, path, mode, d.name, win)
