"""C19 output switching, power-good and DAC obey their hysteresis"""
from props.vsrc_common import U32, converter, mode, regs, setstate

BOUNDS = ("one step from an arbitrary state (storage voltage, output state, power-good, sample counter, start-up counter) "
          "with every threshold symbolic over the full u32 range, buck on/off, immediate power-good on/off; DAC "
          "calibration symbolic (gain 1e-6..1e-3 V, offset +-0.1 V); histories of 5..7 samples (thorough: 9) from "
          "construction with symbolic storage voltages and a check interval of 0..4 samples")
OUTSIDE = "double rounding; the 32 bit wrap of the sample counter in the C original"
STUBS = ["logging disabled"]
MODULES = ("shepherd_core.vsource.virtual_converter_model",)
FAKE_H5 = False


def cases(tier):
    out = [(f"switch/on={a}/buck={b}", "switch", {"on": a, "buck": b}) for a in (False, True) for b in (False, True)]
    out += [(f"pwrgood/on={a}/good={g}/immediate={i}", "good", {"on": a, "pg": g, "imm": i})
            for a in (False, True) for g in (False, True) for i in (0, 1)]
    out += [(f"output/on={a}/buck={b}", "output", {"on": a, "buck": b}) for a in (False, True) for b in (False, True)]
    out += [(f"dac/{a}", "dac", {"buck": a == "buck"}) for a in ("buck", "no-buck")]
    out += [("start", "start", {})]
    out += [(f"history/interval={i}", "history", {"n": (5 if i < 2 else 7) if tier == "quick" else 9, "every": i})
            for i in range(5)]
    out += [("interval", "interval", {})]
    return out


def make(sx, buck=False, imm=0, **kw):
    return converter(sx, regs(mode(storage=True, boost=True, buck=buck), immediate_pwr_good_signal=imm, **kw))


def switch(sx, on, buck):
    en, dis, dv = (sx.int(n, 0, U32) for n in ("en", "dis", "dv"))
    every = sx.int("every", 0, U32)
    c = make(sx, buck, V_enable_output_threshold_uV=en, V_disable_output_threshold_uV=dis, dV_enable_output_uV=dv,
             interval_check_thresholds_n=every)
    v, cnt = sx.real("v", 1, U32), sx.int("cnt", 0, U32)
    c.set_V_intermediate_uV(v)
    setstate(sx, c, is_outputting=on, sample_count=cnt)
    c.update_states_and_output()
    now = sx.is_true(c.is_outputting)
    due = cnt + 1 >= every
    if on and not now:
        sx.check("off only below the disable threshold at a check", sx.both(due, v < dis))
    elif now and not on:
        sx.check("on only above the enable threshold at a check", sx.both(due, v >= en, v >= dv))
        sx.check_exact("output capacitor is charged from the storage", c.V_mid_uV, v - dv, 1e-6)
        sx.check("storage stays positive", c.V_mid_uV >= 0)
    else:
        sx.check("switches when it has to", sx.neg(sx.both(due, (v < dis) if on else sx.both(v >= en, v >= dv))))
    if on or not now:
        sx.check("storage untouched", c.V_mid_uV == v)
    sx.check("counter restarts with a check", c.sample_count == sx.ite(due, 0, cnt + 1))


def good(sx, on, pg, imm):
    lo, hi = sx.int("lo", 0, U32), sx.int("hi", 0, U32)
    en, dis, dv = (sx.int(n, 0, U32) for n in ("en", "dis", "dv"))
    every = sx.int("every", 0, U32)
    c = make(sx, True, imm, V_pwr_good_enable_threshold_uV=hi, V_pwr_good_disable_threshold_uV=lo,
             V_enable_output_threshold_uV=en, V_disable_output_threshold_uV=dis, dV_enable_output_uV=dv,
             interval_check_thresholds_n=every)
    v, cnt = sx.real("v", 1, U32), sx.int("cnt", 0, U32)
    c.set_V_intermediate_uV(v)
    setstate(sx, c, is_outputting=on, power_good=pg, sample_count=cnt)
    c.update_states_and_output()
    due = True if imm else cnt + 1 >= every
    now = sx.is_true(c.get_power_good())
    out = c.is_outputting
    if pg and not now:
        sx.check("falls only at or below its disable threshold", sx.both(due, v <= lo))
    elif now and not pg:
        sx.check("rises only at or above its enable threshold while outputting", sx.both(due, v >= hi, out))
    else:
        sx.check("changes when it has to", sx.neg(sx.both(due, v <= lo) if pg else sx.both(due, v >= hi, out)))


def output(sx, on, buck):
    """voltage and DAC of the output, also while the start-up delay lasts"""
    vo, drop, log = (sx.int(n, 0, U32) for n in ("vo", "drop", "log"))
    c = make(sx, buck, V_output_uV=vo, V_buck_drop_uV=drop, V_output_log_gpio_threshold_uV=log,
             interval_check_thresholds_n=1000)
    v, n = sx.real("v", 1, U32), sx.int("n", 0, U32)
    c.set_V_intermediate_uV(v)
    setstate(sx, c, is_outputting=on, sample_count=0, interval_startup_disabled_drain_n=n)
    raw = c.update_states_and_output()
    got = c.V_out_dac_uV
    if sx.is_true(sx.either(on, n > 0)):
        free = sx.fmax(0, v - drop)
        want = sx.fmin(vo, free) if buck else free
        sx.check_exact("intended output voltage", got, want, 1e-6)
        sx.cover("active")
    else:
        sx.check("disabled output", sx.both(got == 0, raw == 0))
        sx.cover("off")
    sx.check("DAC code in range", sx.both(isinstance(raw, int), raw >= 0, raw <= 65535))
    sx.check("reported code", sx.both(raw == c.V_out_dac_raw))
    sx.check("gpio logging is skipped below its threshold", sx.iff(c.get_state_log_gpio(), got < log))


def dac(sx, buck):
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair
    pair = CalibrationPair(gain=sx.real("gain", 1e-6, 1e-3), offset=sx.real("off", -0.1, 0.1))
    cal = CalibrationEmulator(dac_V_A=pair)
    vo = sx.int("vo", 0, 5_000_000)
    c = converter(sx, regs(mode(storage=True, boost=True, buck=buck), V_output_uV=vo, interval_check_thresholds_n=1000), cal)
    v = sx.real("v", 1, 10_000_000)
    c.set_V_intermediate_uV(v)
    setstate(sx, c, is_outputting=True, sample_count=0)
    raw = c.update_states_and_output()
    want = sx.fmin(vo, v) if buck else v
    sx.check("DAC code in range", sx.both(raw >= 0, raw <= 65535))
    back = pair.gain * raw + pair.offset
    top = pair.gain * 65535 + pair.offset
    si = want / 1e6
    if sx.is_true(si < pair.offset):
        sx.check("lowest code below the range", raw == 0)
    elif sx.is_true(si > top):
        sx.check("highest code above the range", raw == 65535)
    else:
        sx.check_le("code encodes the voltage (upper)", back - si, pair.gain * 0.5, 1e-9)
        sx.check_le("code encodes the voltage (lower)", si - back, pair.gain * 0.5, 1e-9)
    mid = c.get_V_intermediate_raw()
    sx.check("storage code in range", sx.both(mid >= 0, mid <= 65535))


def start(sx):
    vo = sx.int("vo", 0, U32)
    c = make(sx, sx.flag("buck"), V_output_uV=vo)
    sx.check("output starts switched off", c.is_outputting is False)
    sx.check("initial output voltage", c.V_out_dac_uV == vo)
    sx.check("initial DAC code in range", sx.both(c.V_out_dac_raw >= 0, c.V_out_dac_raw <= 65535))


def interval(sx):
    """distance between two checks, any interval: the first step is a check, the next one follows 'every' steps later"""
    every = sx.int("every", 1, 429_000_000)       # the highest a configuration can ask for
    c = make(sx, V_enable_output_threshold_uV=10, interval_check_thresholds_n=every)
    c.set_V_intermediate_uV(1000)
    c.update_states_and_output()
    sx.check("first sample is a check", c.is_outputting)
    k = sx.int("k", 1, U32)
    sx.assume(k <= every)
    cnt = sx.need(c, "sample_count")
    c.sample_count = cnt + (k - 1)             # k - 1 quiet steps later
    setstate(sx, c, V_disable_output_threshold_uV=2000)
    c.update_states_and_output()
    sx.check("next check after the configured number of samples", sx.iff(c.is_outputting, k < every))


def history(sx, n, every):
    """only what an observer sees: DAC code and power-good"""
    en, dis, dv = sx.int("en", 1, U32), sx.int("dis", 0, U32), sx.int("dv", 0, 1000)
    lo, hi = sx.int("lo", 0, U32), sx.int("hi", 0, U32)
    sx.assume(dis <= en)
    sx.assume(dv <= en)
    sx.assume(sx.both(lo <= hi, dis >= 200, hi >= dis, en >= hi))
    c = make(sx, False, 0, V_enable_output_threshold_uV=en, V_disable_output_threshold_uV=dis, dV_enable_output_uV=dv,
             interval_check_thresholds_n=every, V_pwr_good_enable_threshold_uV=hi, V_pwr_good_disable_threshold_uV=lo)
    on, pg = False, True
    for k in range(n):
        v = sx.real(f"v{k}", 2000, U32)
        c.set_V_intermediate_uV(v)
        raw = c.update_states_and_output()
        if k % max(1, every) == 0:
            on = sx.is_true(v >= dis) if on else sx.is_true(v >= en)
            pg = sx.is_true(v > lo) if pg else (on and sx.is_true(v >= hi))
        sx.check(f"output state {k}", sx.iff(c.V_out_dac_uV > 0, on))
        sx.check(f"power good {k}", sx.iff(c.get_power_good(), pg))
        if not on:
            sx.check(f"code 0 while off {k}", raw == 0)
