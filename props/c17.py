"""C17 every valid harvester config maps to in-range, consistent PRU registers"""
BOUNDS = ("all numeric parameters of the config symbolic at once (ranges wider than the model accepts), all 7 "
          "algorithms, both directions, all 3 input types, window size and voltage step of the recording given "
          "(0..2^32-1, 0.1 mV .. 1000 V) or not, voltage step configured or not")
OUTSIDE = "double rounding of the unit factors; text fields; inheritance (C23)"
STUBS = ["pydantic validation -> symbolic counterpart generated from the live model classes", "logging disabled"]
MODULES = ("shepherd_core.data_models.content.virtual_harvester",)
FAKE_H5 = False

ALGOS = {"neutral": 1, "isc_voc": 8, "ivcurve": 16, "cv": 256, "mppt_voc": 4096, "mppt_po": 8192,
         "mppt_opt": 16384}
SAMPLED = ("cv", "mppt_voc", "mppt_po", "mppt_opt", "neutral")     # usable for emulation
DTYPES = ("ivsample", "ivcurve", "isc_voc")


def cases(tier):
    out = [(f"algo/{a}/{d}", "algo", {"algo": a, "dtype": d}) for a in ALGOS for d in DTYPES]
    out += [(f"timing/emu={e}", "timing", {"emu": e}) for e in (False, True)]
    out += [("voltages", "voltages", {}), ("step", "step", {"given": False}), ("step/given", "step", {"given": True}),
            ("limit", "limit", {}), ("modes", "modes", {}), ("names", "names", {})]
    out += [(f"recording/{d}", "rec", {"dtype": d}) for d in DTYPES]
    return out


def config(sx, algo="mppt_voc", **kw):
    from pydantic import ValidationError
    from shepherd_core.data_models.content import VirtualHarvesterConfig
    return sx.attempt(lambda: VirtualHarvesterConfig(name="h", owner="o", group="g", algorithm=algo, **kw),
                      ValidationError)


def convert(sx, cfg, **kw):
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    return sx.attempt(lambda: HarvesterPRUConfig.from_vhrv(cfg, **kw), Exception)


def must(sx, cfg, **kw):
    ok, r = convert(sx, cfg, **kw)
    sx.check("valid config converts", ok, detail=None if ok else str(r)[:200])
    return r if ok else None


def u32(sx, lab, v):
    sx.check(f"{lab} fits u32", sx.both(isinstance(v, int), v >= 0, v < 2**32))


def dtyp(d):
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    return EnergyDType[d]


def lsb(pair, n):
    """n hardware steps in SI"""
    return pair.gain * n + pair.offset


def algo(sx, algo, dtype):
    """usable direction per algorithm and input"""
    emu = sx.flag("emu")
    n = sx.int("n", 8, 2000)
    w = sx.int("w", 0, 100)
    win = sx.int("win", 0, 2**32 - 1) if sx.flag("win_given") else None
    stp = sx.real("stp", 1e-4, 1000) if sx.flag("stp_given") else None
    ok, cfg = config(sx, algo, samples_n=n, wait_cycles=w)
    sx.check("config accepted", ok)
    if not ok:
        return
    kw = {} if win is None else {"window_size": win}
    if stp is not None:
        kw["voltage_step_V"] = stp
    ok, r = convert(sx, cfg, dtype_in=dtyp(dtype), for_emu=emu, **kw)
    if emu:
        allowed = algo in SAMPLED and dtype != "isc_voc"
        if dtype == "ivcurve":
            allowed = allowed and win is not None and stp is not None
    else:
        allowed = algo != "neutral"
    sx.check("usable combinations convert, unusable ones are refused", ok == allowed)
    if not ok:
        sx.check("refused by a plain error", isinstance(r, (ValueError, NotImplementedError)))
        return
    sx.check("algorithm number", r.algorithm == ALGOS[algo])
    if win is not None:
        sx.check("window of the recording", r.window_size == win)
    elif not emu:
        sx.check("window for recording", r.window_size == n)
    else:
        sx.check("no window for ivsamples", r.window_size == 0)
    sx.observe("window", r.window_size)
    if stp is not None:
        sx.check_close("step of the recording", r.voltage_step_uV, 1e6 * stp, 0.5 + 1e-5)
    sx.check("wait cycles", r.wait_cycles_n == w)


def rec(sx, dtype):
    """size of the window: samples * (1 + wait) for curves, none for samples, two points otherwise"""
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    n = sx.int("n", 8, 2000)
    w = sx.int("w", 0, 100)
    algo = sx.choice("algo", list(ALGOS))
    ok, cfg = config(sx, algo, samples_n=n, wait_cycles=w)
    sx.check("config accepted", ok)
    if not ok:
        return
    size = sx.need(cfg, "calc_window_size")
    exp = {"ivsample": 0, "ivcurve": n * (1 + w), "isc_voc": 2 * (1 + w)}
    sx.check("window per input type", size(EnergyDType[dtype], for_emu=True) == exp[dtype])
    own = {"isc_voc": "isc_voc", "ivcurve": "ivcurve"}.get(algo, "ivsample")
    sx.check("window of the own output type", size(for_emu=True) == exp[own])
    sx.check("window when recording", size(EnergyDType[dtype], for_emu=False) == n)


def timing(sx, emu):
    n = sx.int("n", 0, 3000)
    w = sx.int("w", -1, 200)
    iv = sx.real("iv", 0, 2e6)
    du = sx.real("du", 0, 2e6)
    sx.assume(n != 1)
    ok, cfg = config(sx, samples_n=n, wait_cycles=w, interval_ms=iv, duration_ms=du)
    if not ok:
        sx.cover("refused")
        return
    sx.cover("converted")
    r = must(sx, cfg, for_emu=emu)
    if r is None:
        return
    i, d = r.interval_n, r.duration_n
    u32(sx, "interval", i)
    u32(sx, "duration", d)
    low = n * (1 + w) if emu else 1 + w
    sx.check("settling step <= duration", d >= 1 + w)
    sx.check("one window <= duration", d >= low)
    sx.check("duration <= interval", d <= i)
    sx.check("interval <= 1000 s", i <= 100_000_000)
    # the configured value is used wherever the limits permit it
    sx.check_close("interval", i, sx.fmax(100.0 * iv, low), 0.5 + 1e-5)
    sx.check_close("duration", d, sx.fmin(sx.fmax(100.0 * du, low), sx.fmax(100.0 * iv, low)), 0.5 + 1e-5)
    sx.observe("i", i)


def voltages(sx):
    v, lo, hi = (sx.real(n, -10, 6000) for n in ("v", "lo", "hi"))
    ok, cfg = config(sx, voltage_mV=v, voltage_min_mV=lo, voltage_max_mV=hi, voltage_step_mV=50)
    inside = sx.both(lo >= 0, hi <= 5000, lo <= v, v <= hi)
    sx.check("accepted iff consistent", ok == sx.is_true(inside))
    if not ok:
        return
    emu = sx.flag("emu")
    r = must(sx, cfg, for_emu=emu)
    if r is None:
        return
    for n, x in (("voltage", v), ("voltage_min", lo), ("voltage_max", hi)):
        y = getattr(r, n + "_uV")
        u32(sx, n, y)
        sx.check_close(n, y, 1e3 * x, 0.5 + 1e-5)
    sx.check("set-point inside the limits", sx.both(r.voltage_min_uV <= r.voltage_uV,
                                                    r.voltage_uV <= r.voltage_max_uV))


def step(sx, given):
    from shepherd_core.data_models.base.calibration import CalibrationHarvester
    n = sx.int("n", 8, 2000)
    lo, hi = sx.real("lo", 0, 5000), sx.real("hi", 0, 5000)
    sx.assume(lo <= hi)
    kw = {"voltage_step_mV": sx.real("st", 0, 2e6)} if given else {}
    ok, cfg = config(sx, samples_n=n, voltage_min_mV=lo, voltage_max_mV=hi, voltage_mV=hi, **kw)
    least = 1e3 * lsb(CalibrationHarvester().dac_V_Hrv, 4)
    if not ok:
        # steps below the model limit of 1 mV / above 1000 V
        sx.check("refused only out of range", sx.either(
            kw["voltage_step_mV"] > 1e6 if given else (hi - lo) / (n - 1) < 1.0, least < 1.0))
        return
    r = must(sx, cfg)
    if r is None:
        return
    s = r.voltage_step_uV
    u32(sx, "step", s)
    want = kw["voltage_step_mV"] if given else (hi - lo) / (n - 1)
    sx.check("never below four DAC steps", s >= 1e3 * least - 0.51)
    sx.check_close("step", s, 1e3 * sx.fmax(least, want), 0.5 + 1e-4)


def limit(sx):
    from shepherd_core.data_models.base.calibration import CalibrationHarvester
    c = sx.real("c", -1, 60_000)
    sp = sx.real("sp", -1, 2)
    ok, cfg = config(sx, current_limit_uA=c, setpoint_n=sp)
    if not ok:
        sx.check("refused only out of range", sx.either(c < 1, c > 50_000, sp < 0, sp > 1))
        return
    r = must(sx, cfg)
    if r is None:
        return
    least = 1e6 * lsb(CalibrationHarvester().adc_C_Hrv, 4)
    u32(sx, "limit", r.current_limit_nA)
    sx.check("never below four ADC steps", r.current_limit_nA >= 1e3 * least - 0.51)
    sx.check_close("limit", r.current_limit_nA, 1e3 * sx.fmax(least, c), 0.5 + 1e-5)
    sx.check("setpoint fits eight bit", sx.both(r.setpoint_n8 >= 0, r.setpoint_n8 <= 255))
    sx.check_close("setpoint", r.setpoint_n8, sx.fmin(255, 256 * sp), 0.5 + 1e-6)


def modes(sx):
    ri, ex, emu = sx.flag("rising"), sx.flag("extrapolate"), sx.flag("emu")
    ok, cfg = config(sx, rising=ri, enable_linear_extrapolation=ex)
    sx.check("accepted", ok)
    r = must(sx, cfg, for_emu=emu) if ok else None
    if r is not None:
        sx.check("mode bits", r.hrv_mode == emu + 2 * ri + 4 * ex)


def names(sx):
    """text forms of algorithm and input type; neutral is no harvester of its own"""
    from pydantic import ValidationError
    from shepherd_core.data_models.content import VirtualHarvesterConfig
    d = sx.choice("d", DTYPES)
    emu = sx.flag("emu")
    ok, cfg = config(sx, "cv")
    sx.check("accepted", ok)
    a = convert(sx, cfg, dtype_in=d, for_emu=emu)
    b = convert(sx, cfg, dtype_in=dtyp(d), for_emu=emu)
    sx.check("text works like the enum", a[0] == b[0] and (not a[0] or a[1] == b[1]))
    ok, _ = sx.attempt(lambda: VirtualHarvesterConfig(name="neutral", algorithm="neutral"), ValidationError)
    sx.check("neutral refused", not ok)
    ok, _ = sx.attempt(lambda: VirtualHarvesterConfig(name="neutral"), ValidationError)
    sx.check("neutral fixture refused", not ok)
