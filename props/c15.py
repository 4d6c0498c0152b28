"""C15 every valid virtual source maps to in-range, faithful PRU registers"""
BOUNDS = ("every scalar parameter symbolic at once over a range wider than the model accepts (the model itself "
          "decides what is valid), all flags and input types; capacitor charge-up switched off here (C16); "
          "efficiency tables: 5 + 3 entries symbolic in [-1, 2], the other entries fixed and pairwise distinct")
OUTSIDE = "double rounding of the unit factors (relative 1e-12); validation of the text fields"
STUBS = ["pydantic validation -> symbolic counterpart generated from the live model classes", "logging disabled"]
MODULES = ("shepherd_core.data_models.content.virtual_source",)
FAKE_H5 = False

# parameter: (register, factor)
LINEAR = {
    "interval_startup_delay_drain_ms": ("interval_startup_delay_drain_n", 100.0),
    "V_input_max_mV": ("V_input_max_uV", 1e3),
    "I_input_max_mA": ("I_input_max_nA", 1e6),
    "V_input_drop_mV": ("V_input_drop_uV", 1e3),
    "R_input_mOhm": ("R_input_kOhm_n22", 4.194304),
    "V_intermediate_init_mV": ("V_intermediate_init_uV", 1e3),
    "I_intermediate_leak_nA": ("I_intermediate_leak_nA", 1.0),
    "interval_check_thresholds_ms": ("interval_check_thresholds_n", 100.0),
    "V_pwr_good_enable_threshold_mV": ("V_pwr_good_enable_threshold_uV", 1e3),
    "V_pwr_good_disable_threshold_mV": ("V_pwr_good_disable_threshold_uV", 1e3),
    "V_output_log_gpio_threshold_mV": ("V_output_log_gpio_threshold_uV", 1e3),
    "V_input_boost_threshold_mV": ("V_input_boost_threshold_uV", 1e3),
    "V_intermediate_max_mV": ("V_intermediate_max_uV", 1e3),
    "V_output_mV": ("V_output_uV", 1e3),
    "V_buck_drop_mV": ("V_buck_drop_uV", 1e3),
}
THR = ("V_intermediate_enable_threshold_mV", "V_intermediate_disable_threshold_mV")
DTYPES = ("ivsample", "ivcurve", "isc_voc")


def cases(tier):
    out = [(f"linear/{i}", "linear", {"names": n}) for i, n in enumerate(
        (list(LINEAR)[:5], list(LINEAR)[5:10], list(LINEAR)[10:]))]
    out += [(f"limits/{n}", "linear", {"names": [n], "near": True}) for n in LINEAR]
    out += [(f"mode/{d}", "mode", {"dtype": d}) for d in DTYPES]
    out += [("thresholds", "thresholds", {}), ("cap", "cap", {}), ("ints", "ints", {}),
            ("lut-in", "lut_in", {}), ("lut-out", "lut_out", {}, {"ovf": True})]
    return out


def vsrc(sx, **kw):
    from pydantic import ValidationError
    from shepherd_core.data_models.content import VirtualSourceConfig
    kw.setdefault("C_output_uF", 0)
    return sx.attempt(lambda: VirtualSourceConfig(name="vs", owner="o", group="g", **kw), ValidationError)


def convert(sx, cfg, *a, **k):
    """must never fail for a config that passed validation"""
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    ok, r = sx.attempt(lambda: ConverterPRUConfig.from_vsrc(cfg, *a, **k), Exception)
    sx.check("valid config converts", ok, detail=None if ok else str(r)[:200])
    return r if ok else None


def u32(sx, lab, v):
    sx.check(f"{lab} is an integer", isinstance(v, int))
    sx.check(f"{lab} fits u32", sx.both(v >= 0, v < 2**32))


def register(sx, reg, name, exact):
    v = getattr(reg, name)
    u32(sx, name, v)
    sx.check_close(f"{name} value", v, exact, 0.5 + 1e-5)
    sx.observe(name, v)


def linear(sx, names, near=False):
    vals = {}
    for n in names:
        vals[n] = sx.real(n, -10 if near else 0, 1e10)
    ok, cfg = vsrc(sx, **vals)
    if not ok:
        sx.cover("refused")
        return
    sx.cover("converted")
    reg = convert(sx, cfg)
    if reg is None:
        return
    for n in names:
        register(sx, reg, LINEAR[n][0], vals[n] * LINEAR[n][1])


def mode(sx, dtype):
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    f = {n: sx.flag(n) for n in ("enable_boost", "enable_buck", "enable_feedback_to_hrv",
                                 "immediate_pwr_good_signal")}
    c = sx.real("C", 0, 100_000)
    log = sx.flag("log")
    ok, cfg = vsrc(sx, C_intermediate_uF=c, **f)
    sx.check("accepted", ok)
    if not ok:
        return
    reg = convert(sx, cfg, EnergyDType[dtype], log_intermediate_node=log)
    if reg is None:
        return
    m = reg.converter_mode
    st = sx.is_true(c > 0)
    boost = f["enable_boost"] and st
    fb = f["enable_feedback_to_hrv"] and st and not boost and dtype == "ivcurve"
    sx.check("mode bits", m == (1 * st + 2 * boost + 4 * f["enable_buck"] + 8 * log + 16 * fb))
    sx.check("power good kind", reg.immediate_pwr_good_signal == int(f["immediate_pwr_good_signal"]))
    sx.observe("mode", m)


def thresholds(sx):
    """without output capacitor the configured thresholds apply, raised to what the buck stage needs"""
    en, dis = sx.real(THR[0], -10, 20_000), sx.real(THR[1], -10, 20_000)
    vo, drop = sx.real("V_output_mV", 0, 5_000), sx.real("V_buck_drop_mV", 0, 5_000)
    buck = sx.flag("buck")
    ok, cfg = vsrc(sx, enable_buck=buck, V_output_mV=vo, V_buck_drop_mV=drop,
                   C_intermediate_uF=sx.real("C", 0, 100_000), **{THR[0]: en, THR[1]: dis})
    if not ok:
        return
    reg = convert(sx, cfg)
    if reg is None:
        return
    low = vo + drop if buck else -1.0
    register(sx, reg, "V_enable_output_threshold_uV", 1e3 * sx.fmax(en, low))
    register(sx, reg, "V_disable_output_threshold_uV", 1e3 * sx.fmax(dis, low))
    sx.check("no charge-up drop", reg.dV_enable_output_uV == 0)


def cap(sx):
    c = sx.real("C_intermediate_uF", 0, 1e6)
    ok, cfg = vsrc(sx, C_intermediate_uF=c)
    if not ok:
        sx.cover("refused")
        return
    reg = convert(sx, cfg)
    if reg is None:
        return
    v = reg.Constant_us_per_nF_n28
    u32(sx, "capacitor constant", v)
    ce = sx.fmax(c, 0.001)
    exact = 1e3 * 2.0**28 / 1e5         # [us/nF] * uF
    # the register is the constant rounded down (one unit of slack for doubles)
    sx.check("capacitor constant not above", v * ce <= exact * (1 + 1e-12) + ce * 1e-6)
    sx.check("capacitor constant not below", (v + 1 + 1e-6) * ce >= exact * (1 - 1e-12))


def ints(sx):
    n = {"LUT_input_V_min_log2_uV": 0, "LUT_input_I_min_log2_nA": 1, "LUT_output_I_min_log2_nA": 1}
    v = {k: sx.int(k, -1, 40) for k in n}
    ok, cfg = vsrc(sx, **v)
    if not ok:
        return
    reg = convert(sx, cfg)
    if reg is None:
        return
    for k, off in n.items():
        u32(sx, k, getattr(reg, k))
        sx.check(f"{k} value", getattr(reg, k) == v[k] - off)


IN = ((0, 0), (0, 11), (3, 7), (7, 3), (11, 11))


def lut_in(sx):
    lut = [[(i * 12 + j) / 143 for j in range(12)] for i in range(12)]
    sv = {}
    for i, j in IN:
        lut[i][j] = sv[i, j] = sx.real(f"l{i}_{j}", -1, 2)
    ok, cfg = vsrc(sx, LUT_input_efficiency=lut)
    if not ok:
        sx.cover("refused")
        return
    reg = convert(sx, cfg)
    if reg is None:
        return
    t = reg.LUT_inp_efficiency_n8
    sx.check("shape", len(t) == 12 and all(len(r) == 12 for r in t))
    for i in range(12):
        for j in range(12):
            exact = lut[i][j] * 256
            sx.check_close(f"entry {i} {j}", t[i][j], sx.fmin(255, exact), 0.5 + 1e-6)
            sx.check(f"entry {i} {j} fits u8", sx.both(t[i][j] >= 0, t[i][j] < 256))


OUT = (0, 5, 11)


def lut_out(sx):
    lut = [(i + 1) / 13 for i in range(12)]
    for i in OUT:
        lut[i] = sx.real(f"l{i}", -1, 2)
    ok, cfg = vsrc(sx, LUT_output_efficiency=lut)
    if not ok:
        sx.cover("refused")
        return
    reg = convert(sx, cfg)
    if reg is None:
        return
    t = reg.LUT_out_inv_efficiency_n4
    sx.check("length", len(t) == 12)
    top = 2**14
    for i in range(12):
        u32(sx, f"entry {i}", t[i])
        e = lut[i]
        # |t - min(16/e, top)| <= 0.5, without dividing
        sat = e * top <= 16
        sx.check(f"entry {i} saturates", sx.implies(sat, t[i] == top))
        sx.check(f"entry {i} value", sx.either(sat, sx.both(
            (t[i] - 0.50001) * e <= 16, (t[i] + 0.50001) * e >= 16)))
