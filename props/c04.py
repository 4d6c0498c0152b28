"""C04 hardware conversion formulas"""
BOUNDS = "physical values in [-1e3, 1e3] V/A, raw codes in [-2^20, 2^20], calibration gains in [1e-12, 1e6], linear probe functions slope in [1e-3, 1e9], offset in [-1e6, 1e6]"
OUTSIDE = "double rounding (1e-6 LSB)"
STUBS = []
# documented hardware: 18 bit ADC with 4.096 V * 1.25 range, current via 2 ohm * gain 48;
# 16 bit DAC with 2.5 V * 2
LSB = {"adc_voltage": 1.25 * 4.096 / 2**18, "adc_current": 1.25 * 4.096 / 2**18 / 96.0,
       "dac_voltage": 5.0 / 2**16}
BITS = {"adc_voltage": 18, "adc_current": 18, "dac_voltage": 16}
FN = {"adc_voltage": ("adc_voltage_to_raw", "adc_raw_to_voltage"),
      "adc_current": ("adc_current_to_raw", "adc_raw_to_current"),
      "dac_voltage": ("dac_voltage_to_raw", "dac_raw_to_voltage")}


def cases(tier):
    out = []
    for k in LSB:
        out += [(f"{k}/encode", "encode", {"k": k}), (f"{k}/decode", "decode", {"k": k}),
                (f"{k}/unlimited", "unlimited", {"k": k})]
    out += [(f"from_cal/{d}/{p}", "from_cal", {"dev": d, "port_a": p})
            for d in ("hrv", "emu") for p in (True, False)]
    out += [("from_cal/default", "from_cal", {"dev": "emu", "port_a": None}),
            ("from_fn", "from_fn", {}), ("defaults", "defaults", {})]
    return out


def fns(k):
    from shepherd_core import calibration_hw_def as hw
    return getattr(hw, FN[k][0]), getattr(hw, FN[k][1])


def encode(sx, k):
    enc, dec = fns(k)
    lsb, top = LSB[k], 2**BITS[k] - 1
    x = sx.real("x", -1e3, 1e3)
    y = sx.real("y", -1e3, 1e3)
    sx.assume(x <= y)
    a, b = enc(x), enc(y)
    sx.check("in range", sx.both(a >= 0, a <= top, isinstance(a, int)))
    sx.check("monotone", a <= b)
    d = dec(a)
    sx.observe("a", a)
    if sx.is_true(sx.both(x >= 0, x <= top * lsb * (1 + 1e-9))):
        sx.cover("inside")
        sx.check_le("decodes to at most the value", d, x, 1e-6 * lsb)
        sx.check_le("less than one LSB below", x - d, lsb, 1e-6 * lsb)
    elif sx.is_true(x < 0):
        sx.check("saturates at 0", a == 0)
    else:
        sx.cover("above")
        sx.check("saturates at top", a == top)


def decode(sx, k):
    enc, dec = fns(k)
    lsb, top = LSB[k], 2**BITS[k] - 1
    r = sx.int("raw", -2**20, 2**20)
    v = dec(r)
    c = sx.fmin(sx.fmax(r, 0), top)
    sx.check_close("value of (saturated) code", v, c * lsb, 1e-9 * lsb * top)
    sx.observe("v", v)
    back = enc(v + 0.25 * lsb)
    sx.check("code comes back", back == c)


def unlimited(sx, k):
    enc, dec = fns(k)
    lsb = LSB[k]
    x = sx.real("x", -1e3, 1e3)
    a = enc(x, limited=False)
    sx.check_le("within one LSB", abs(a * lsb - x), lsb, 1e-6 * lsb)
    r = sx.int("raw", -2**20, 2**20)
    sx.check_close("unlimited decode", dec(r, limited=False), r * lsb, 1e-9 * lsb * 2**20)


def from_cal(sx, dev, port_a):
    from shepherd_core.data_models.base import calibration as cb
    cls = cb.CalibrationHarvester if dev == "hrv" else cb.CalibrationEmulator
    names = ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv") if dev == "hrv" else (
        "dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")
    g = {n: sx.real(f"{n}_g", 1e-12, 1e6) for n in names}
    o = {n: sx.real(f"{n}_o", -1e6, 1e6) for n in names}
    cal = cls(**{n: {"gain": g[n], "offset": o[n]} for n in names})
    kw = {} if port_a is None else {"emu_port_a": port_a}
    s = cb.CalibrationSeries.from_cal(cal, **kw)
    v, c = ("adc_V_Sense", "adc_C_Hrv") if dev == "hrv" else (
        ("dac_V_A", "adc_C_A") if port_a in (True, None) else ("dac_V_B", "adc_C_B"))
    for lab, got, e in (("voltage", s.voltage, v), ("current", s.current, c)):
        sx.check_eq(f"{lab} gain", got.gain, g[e])
        sx.check_eq(f"{lab} offset", got.offset, o[e])
    sx.check_close("time base stays ns", s.time.gain, 1e-9, 1e-18)
    sx.check_eq("time offset", s.time.offset, 0)


def from_fn(sx):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    a = sx.real("slope", 1e-3, 1e9)
    b = sx.real("intercept", -1e6, 1e6)
    p = CalibrationPair.from_fn(lambda x, limited=True: a * x + b, unit="V")
    x = sx.real("x", -1e3, 1e3)
    raw = a * x + b
    si = p.raw_to_si(raw)
    sx.check_close("reproduces the function", si * a, x * a, 1e-6 * (abs(a) * 1e3 + abs(b)) + 1e-9)
    sx.check("unit kept", p.unit == "V")
    sx.observe("gain", p.gain)


def defaults(sx):
    """default pairs describe the hardware formulas"""
    from shepherd_core.data_models.base import calibration as cb
    h, e = cb.CalibrationHarvester(), cb.CalibrationEmulator()
    kinds = {"dac_V_Hrv": "dac_voltage", "dac_V_Sim": "dac_voltage", "adc_V_Sense": "adc_voltage",
             "adc_C_Hrv": "adc_current", "dac_V_A": "dac_voltage", "dac_V_B": "dac_voltage",
             "adc_C_A": "adc_current", "adc_C_B": "adc_current"}
    r = sx.int("raw", 0, 2**18 - 1)
    for n, k in kinds.items():
        p = getattr(h if hasattr(h, n) else e, n)
        # probed with int() truncation: slope accurate to one code in its own resolution
        exp = r * LSB[k]
        sx.check_close(f"{n} converts like the hardware", p.raw_to_si(r), exp,
                       (LSB[k] * 1.0) * (r * LSB[k]) + 1e-12 + LSB[k] * 1e-3)
        sx.observe(n, p.raw_to_si(r))
