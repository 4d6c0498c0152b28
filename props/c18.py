"""C18 simulated storage voltage stays physical and energy is conserved"""
from props.vsrc_common import U32, converter, emu_cal, mode, regs, setstate

BOUNDS = ("one step from an arbitrary converter state: storage voltage, powers, output voltage, drain counter, every "
          "register used by the step (full u32 range, table entry included) and the input voltage/current/ADC value "
          "are symbolic at once; boost, diode+capacitor (with and without harvester feedback) and direct topologies")
OUTSIDE = "double rounding; the choice of the table cell (C20) - the table is uniform with one symbolic entry here"
STUBS = ["logging disabled", "table look-up -> the (uniform, symbolic) entry of the table, arguments checked"]
MODULES = ("shepherd_core.vsource.virtual_converter_model",)
FAKE_H5 = False
V_MAX = 1e9


def cases(tier):
    o = {"t_query": 20000, "t_hard": 60000}
    out = [(f"input/{n}", "inp", {"kind": n}, o) for n in ("boost", "boost+storage", "diode", "diode+feedback", "direct")]
    out += [(f"output/{n}", "outp", {"buck": n == "buck"}, o) for n in ("buck", "no-buck")]
    out += [(f"startup/{n}", "startup", {"buck": n == "buck"}, o) for n in ("buck", "no-buck")]
    out += [("output/adc-range", "adc_range", {}, o)]
    out += [("storage/cap", "cap", {}, o), ("storage/none", "none", {}, o)]
    out += [(f"step/{n}", "step", {"kind": n}, {"t_query": 3000, "t_hard": 60000}) for n in ("boost+storage", "diode", "direct")]
    out += [("start", "start", {}, o)]
    return out


FLAGS = {"boost": {"boost": True}, "boost+storage": {"boost": True, "storage": True}, "diode": {"storage": True},
         "diode+feedback": {"storage": True, "feedback": True}, "direct": {}}


def corrected(sx, v, i, drop, vmax, imax):
    """voltage behind the input diode and limits, current behind its limit"""
    v = sx.fmin(sx.fmax(0.0, v - drop), vmax)
    i = sx.fmin(sx.fmax(0.0, i), imax)
    return v, i


def stub_lut(sx, c, eta):
    """same value as the uniform table gives"""
    seen = []
    if hasattr(c, "get_input_efficiency"):
        def look(voltage_uV, current_nA):
            seen.append((voltage_uV, current_nA))
            return eta
        c.get_input_efficiency = look
    return seen


def inp(sx, kind):
    drop, vmax, imax = (sx.int(n, 0, U32) for n in ("drop", "vmax", "imax"))
    thr = sx.int("thr", 0, U32) if "boost" in kind else 0
    res = sx.int("res", 0, U32) if "diode" in kind else 0
    eta = sx.int("eta", 0, 255) if "boost" in kind else 200
    c = converter(sx, regs(mode(**FLAGS[kind]), inp=eta, V_input_drop_uV=drop, V_input_max_uV=vmax, I_input_max_nA=imax,
                           V_input_boost_threshold_uV=thr, R_input_kOhm_n22=res))
    vm = sx.real("v_mid", 1, U32)
    c.set_V_intermediate_uV(vm)
    v, i = sx.real("v", -10, V_MAX), sx.real("i", -10, V_MAX)
    seen = stub_lut(sx, c, eta / 256)
    ret = c.calc_inp_power(v, i)
    vc, ic = corrected(sx, v, i, drop, vmax, imax)
    p = c.P_inp_fW
    sx.check("never negative", sx.both(p >= 0, ret >= 0))
    lim = vc if kind != "diode+feedback" else sx.fmax(vc, vm)
    sx.check_le("never more than voltage times current", p, lim * ic, 1e-9 + 1e-12 * V_MAX)
    for a, b in seen:
        sx.check("efficiency taken at the corrected operating point", sx.both(
            b == ic, sx.either(a == vc, sx.both(a == 0, vc < thr))))
    if "boost" in kind:
        low = sx.is_true(vc < thr)
        sx.check("boost power" if not low else "nothing below the boost threshold",
                 sx.close(p, 0 if low else vc * ic * eta / 256, 1e-3))
        sx.check("storage untouched", c.V_mid_uV == vm)
    elif kind == "direct":
        sx.check("storage follows the input", c.V_mid_uV == vc)
        sx.check("input is not integrated", p == 0)
    else:
        sx.check("storage untouched", c.V_mid_uV == vm)
        dv = ic * res / 2**22
        if sx.is_true(vc - dv > vm):
            sx.check_exact("diode power", p, (vc - dv) * ic, 1e-3)
            sx.cover("conducting")
        elif kind == "diode":
            sx.check_le("nothing flows uphill", p, sx.ite(vc >= vm, vm * ic, 0), 1e-3)
            sx.cover("blocking")
        if kind == "diode+feedback":
            sx.check_exact("harvester is steered to the storage", c.V_input_request_uV, vm + dv + drop, 1e-3)
    sx.check_exact("returns the rounded power", ret, sx.rnd(p), 1)


def outp(sx, buck):
    leak = sx.int("leak", 0, U32)
    inv = sx.int("inv", 16, 2**14)
    cal = emu_cal(sx, 0.0, 1e-3, gain=True)
    c = converter(sx, regs(mode(storage=True, buck=buck), out=inv, I_intermediate_leak_nA=leak), cal)
    vm, vo = sx.real("v_mid", 1, U32), sx.real("v_out", 0, 5_000_000)
    setstate(sx, c, V_out_dac_uV=vo)
    c.set_V_intermediate_uV(vm)
    if hasattr(c, "get_output_inv_efficiency"):
        c.get_output_inv_efficiency = lambda _i: inv / 16
    raw = sx.int("raw", 0, 2**18 - 1)
    i = cal.adc_C_A.raw_to_si(raw) * 1e9
    ret = c.calc_out_power(raw)
    p = c.P_out_fW
    low = vm * leak + vo * i
    sx.check_le("covers leakage and output", low, p, 1e-3)
    sx.check_exact("output power", p, vm * leak + (vo * i * inv / 16 if buck else vo * i), 1e-2)
    sx.check("never negative", sx.both(p >= 0, ret >= 0))
    sx.check_exact("returns the rounded power", ret, sx.rnd(p), 1)


def startup(sx, buck):
    """during the startup delay the output is not drained, afterwards it is"""
    n = sx.int("n", 0, U32)
    leak = sx.int("leak", 0, U32)
    c = converter(sx, regs(mode(storage=True, buck=buck), interval_startup_delay_drain_n=n, I_intermediate_leak_nA=leak))
    vm = sx.real("v_mid", 1, U32)
    c.set_V_intermediate_uV(vm)
    c.calc_out_power(0)
    left = n
    for k in range(3):
        p = c.P_out_fW
        if sx.is_true(left > 0):
            sx.check(f"nothing drained while delayed ({k})", p == 0)
            left = left - 1
        else:
            sx.check_le(f"drained once the delay is over ({k})", vm * leak, p, 1e-3)
        c.calc_out_power(0)


def adc_range(sx):
    """ADC values outside the converter range count as the nearest value inside"""
    raw = sx.int("raw", -2**31, 2**31)
    r = []
    for x in (raw, sx.fmin(sx.fmax(raw, 0), 2**18 - 1)):
        c = converter(sx, regs(mode(storage=True)))
        r.append(c.calc_out_power(x))
        sx.check("not negative", r[-1] >= 0)
    sx.check("clipped", r[0] == r[1])


def cap(sx):
    const, vmax = sx.int("const", 0, U32), sx.int("vmax", 1, U32)
    c = converter(sx, regs(mode(storage=True, boost=sx.flag("boost")), Constant_us_per_nF_n28=const,
                           V_intermediate_max_uV=vmax))
    vm = sx.real("v_mid", 0, U32)
    pi, po = sx.real("p_in", 0, 1e20), sx.real("p_out", 0, 1e20)
    c.set_V_intermediate_uV(vm)
    c.set_P_input_fW(pi)
    c.set_P_output_fW(po)
    ret = c.update_cap_storage()
    v = c.V_mid_uV
    sx.check("storage voltage inside [1 uV, max]", sx.both(v >= 1, v <= vmax))
    sx.check("rounded value returned", sx.both(ret >= v - 0.5 - 1e-6, ret <= v + 0.5 + 1e-6))
    prot = sx.fmax(1.0, vm)
    free = vm + (pi - po) / prot * const / 2**28
    sx.check_exact("charge of one sample is integrated", v, sx.fmax(1, sx.fmin(vmax, free)), 1e-6 * vmax + 1e-3)
    sx.check("powers unchanged", sx.both(c.P_inp_fW == pi, c.P_out_fW == po))


def none(sx):
    """without capacitor the storage voltage is only limited"""
    vmax = sx.int("vmax", 1, U32)
    c = converter(sx, regs(mode(boost=sx.flag("boost")), V_intermediate_max_uV=vmax))
    vm = sx.real("v_mid", 0, U32)
    c.set_V_intermediate_uV(vm)
    c.set_P_input_fW(sx.real("p_in", 0, 1e20))
    c.set_P_output_fW(sx.real("p_out", 0, 1e20))
    c.update_cap_storage()
    sx.check("only limited", c.V_mid_uV == sx.fmax(1, sx.fmin(vmax, vm)))


def step(sx, kind):
    """whole sample: input, output, storage - energy in the capacitor never grows by more than the input offers"""
    const = sx.int("const", 1, U32)
    leak = sx.int("leak", 0, 1_000_000)
    c = converter(sx, regs(mode(**FLAGS[kind]), inp=255, Constant_us_per_nF_n28=const, I_intermediate_leak_nA=leak,
                           R_input_kOhm_n22=2**22 if kind == "diode" else 0))
    stub_lut(sx, c, 255 / 256)
    vm = sx.real("v_mid", 1, 10_000_000)
    c.set_V_intermediate_uV(vm)
    setstate(sx, c, V_out_dac_uV=2_000_000.0)
    v, i = sx.real("v", 0, 20_000_000), sx.real("i", 0, 50_000_000)
    raw = sx.int("raw", 0, 2**18 - 1)
    c.calc_inp_power(v, i)
    follow = c.V_mid_uV
    c.calc_out_power(raw)
    c.update_cap_storage()
    now = c.V_mid_uV
    sx.check("storage voltage inside [1 uV, max]", sx.both(now >= 1, now <= 10_000_000))
    if kind == "direct":
        sx.check("follows the input", sx.both(follow == sx.fmin(v, 10_000_000), now == sx.fmax(1, follow)))
        return
    gain = (now - vm) * vm * 2**28
    vc = sx.fmin(v, 10_000_000)
    sx.check_le("gain limited by the input power", gain, vc * i * const, 1e-6 * 2**28 * 1e7)
    if kind == "diode":
        sx.check("no charge from a lower voltage", sx.implies(vc < vm, now <= vm))


def start(sx):
    """state after construction"""
    init, vout, en, dv = (sx.int(n, 0, U32) for n in ("init", "vout", "en", "dv"))
    m = sx.int("mode", 0, 31)
    n = sx.int("n", 0, U32)
    c = converter(sx, regs(m, V_intermediate_init_uV=init, V_output_uV=vout, V_enable_output_threshold_uV=en,
                           dV_enable_output_uV=dv, interval_startup_delay_drain_n=n))
    sx.check("storage starts as configured", c.get_V_intermediate_uV() == init)
    sx.check("no power flows", sx.both(c.get_P_input_fW() == 0, c.get_P_output_fW() == 0))
    for k, b in (("enable_storage", 1), ("enable_boost", 2), ("enable_buck", 4), ("feedback_to_hrv", 16)):
        sx.check(f"mode bit {k}", sx.iff(sx.need(c, k), m // b % 2 == 1))
    sx.check("mode bit log", sx.iff(c.get_state_log_intermediate(), m // 8 % 2 == 1))
