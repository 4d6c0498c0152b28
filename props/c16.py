"""C16 output-capacitor charge-up is accounted by energy balance"""
BOUNDS = ("both capacitors, enable/disable thresholds, output voltage, buck drop symbolic over their whole valid "
          "ranges, buck on/off: a single decision over all reals")
OUTSIDE = "double rounding (replay tolerance 1e-6 mV relative to the voltages involved)"
STUBS = ["square roots -> r with r >= 0 and r*r = x", "pydantic validation -> symbolic counterpart", "logging disabled"]
MODULES = ("shepherd_core.data_models.content.virtual_source",)
FAKE_H5 = False


def cases(tier):
    o = {"t_query": 20000, "t_hard": 60000}
    return [("no-buck", "balance", {"buck": False}, o), ("buck", "balance", {"buck": True}, o),
            ("no-caps", "no_caps", {}), ("registers", "registers", {}, o),
            ("registers/buck", "registers", {"buck": True}, o)]


def make(sx, buck, cs_lo=0.0, co_lo=0.0):
    from shepherd_core.data_models.content import VirtualSourceConfig
    x = {
        "C_intermediate_uF": sx.real("c_st", cs_lo, 100_000),
        "C_output_uF": sx.real("c_out", co_lo, 4.29e6),
        "V_intermediate_enable_threshold_mV": sx.real("v_en", 0, 10_000),
        "V_intermediate_disable_threshold_mV": sx.real("v_dis", 0, 10_000),
        "V_output_mV": sx.real("v_out", 0, 5_000),
        "V_buck_drop_mV": sx.real("v_drop", 0, 5_000),
    }
    cfg = VirtualSourceConfig(name="vs", owner="o", group="g", enable_buck=buck, **x)
    return cfg, x


def states(sx, cfg):
    return sx.need(cfg, "calc_internal_states")()


def balance(sx, buck):
    # the relation is between exact reals, so the capacitors are kept away from zero only to
    # keep the replay in doubles meaningful
    cfg, x = make(sx, buck, 1e-3, 1e-3)
    cs, co, ven, vdis, vo, vd = x.values()
    s = states(sx, cfg)
    dv, en, dis = (s[k] for k in ("dV_enable_output_mV", "V_enable_output_threshold_mV",
                                  "V_disable_output_threshold_mV"))
    pre = vo + vd
    sx.check("drop not negative", dv >= 0)
    low = buck and not sx.is_true(ven > pre)
    v_old = vo if low else ven
    sx.check_le("drop not above the storage voltage", dv, v_old, 1e-6)
    # possible: the storage holds the energy the output capacitor takes
    possible = cs * v_old * v_old >= co * vo * vo
    if sx.is_true(possible):
        new = v_old - dv
        # C_st * V_old^2 = C_st * V_new^2 + C_out * V_out^2
        sx.check_exact("energy balance", cs * v_old * v_old, cs * new * new + co * vo * vo,
                       1e-9 * cs * (v_old + 1) * (v_old + 1))
        sx.cover("balanced")
    else:
        sx.check("impossible jump is not applied", dv == 0)
        sx.cover("impossible")
    if buck:
        sx.check_le("enable threshold high enough for the buck stage", pre, en, 1e-6)
        sx.check_le("disable threshold high enough for the buck stage", pre, dis, 1e-6)
        if low:
            sx.check_exact("enable threshold includes the drop", en, pre + dv, 1e-6)
        else:
            sx.check("configured enable threshold", en == ven)
        sx.check("configured disable threshold", sx.either(dis == vdis, dis == pre))
        sx.check("disable threshold is the higher one", sx.both(dis >= vdis, dis >= pre))
    else:
        sx.check("configured enable threshold", en == ven)
        sx.check("configured disable threshold", dis == vdis)


def no_caps(sx):
    cfg, x = make(sx, sx.flag("buck"))
    cs, co = x["C_intermediate_uF"], x["C_output_uF"]
    sx.assume(sx.either(cs == 0, co == 0))
    s = states(sx, cfg)
    sx.check("no drop", s["dV_enable_output_mV"] == 0)


def registers(sx, buck=False):
    """the registers carry these states in uV"""
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    cfg, x = make(sx, buck, 1e-3, 1e-3)
    s = states(sx, cfg)
    ok, reg = sx.attempt(lambda: ConverterPRUConfig.from_vsrc(cfg), Exception)
    sx.check("converts", ok)
    if not ok:
        return
    for n in ("dV_enable_output", "V_enable_output_threshold", "V_disable_output_threshold"):
        r, v = getattr(reg, n + "_uV"), s[n + "_mV"]
        sx.check(f"{n} fits", sx.both(r >= 0, r < 2**32))
        sx.check_close(f"{n} in uV", r, 1e3 * v, 0.5 + 1e-4)
