"""C03 sysfs export of calibration"""
BOUNDS = "gains in [1e-15, 1e6], offsets in [-1e6, 1e6], all channels symbolic at once"
OUTSIDE = "double rounding of the scale factors (relative 1e-12)"
STUBS = []


def cases(tier):
    return [("harvester", "export", {"dev": "hrv"}), ("emulator", "export", {"dev": "emu"})]


def export(sx, dev):
    from shepherd_core.data_models.base import calibration as cb
    cls = cb.CalibrationHarvester if dev == "hrv" else cb.CalibrationEmulator
    names = ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv") if dev == "hrv" else (
        "dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")
    g, o, d = {}, {}, {}
    for n in names:
        g[n] = sx.real(f"{n}_gain", 1e-15, 1e6)
        o[n] = sx.real(f"{n}_offset", -1e6, 1e6)
        d[n] = {"gain": g[n], "offset": o[n]}
    cal = cls(**d)
    ac = "adc_C_Hrv" if dev == "hrv" else "adc_C_A"
    dv = "dac_V_Hrv" if dev == "hrv" else "dac_V_A"
    exp = {
        "adc_current_gain": 1e9 * 256 * g[ac], "adc_current_offset": 1e9 * o[ac],
        "adc_voltage_gain": 1e6 * 256 * g["adc_V_Sense"] if dev == "hrv" else 256e6,
        "adc_voltage_offset": 1e6 * o["adc_V_Sense"] if dev == "hrv" else 0.0,
        "dac_voltage_gain": 2**20 / (1e6 * g[dv]), "dac_voltage_offset": 1e6 * o[dv],
    }
    ok, res = sx.attempt(cal.export_for_sysfs, ValueError)
    sx.observe("ok", ok)
    lim = {k: ((0, 2**32 - 1) if "gain" in k else (-2**31, 2**31 - 1)) for k in exp}
    if ok:
        sx.cover("exported")
        sx.check("exactly the documented keys", set(res) == set(exp))
        for k, e in exp.items():
            v = res[k]
            sx.check(f"{k} is int", isinstance(v, int))
            sx.check(f"{k} fits", sx.both(v >= lim[k][0], v <= lim[k][1]))
            sx.check_close(f"{k} scaled and rounded", v, e, 0.5 + 1e-5)
            sx.observe(k, v)
    else:
        sx.cover("refused")
        sx.check("refused only if something does not fit", sx.either(*[
            sx.either(e > lim[k][1] + 0.49, e < lim[k][0] - 0.49) for k, e in exp.items()]))
