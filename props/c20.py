"""C20 converter efficiency is taken from the right table cell"""
from props.vsrc_common import converter, mode, regs

BOUNDS = ("voltage and current symbolic reals (0 .. 1e13), every cell holds a distinct value; all 21 table origins per "
          "axis (the other axis symbolic for two of them); whole path from the configuration parameters included")
OUTSIDE = "double rounding of the quotient at cell borders"
STUBS = ["math.log2 of an integer -> its exact octave", "logging disabled"]
MODULES = ("shepherd_core.vsource.virtual_converter_model", "shepherd_core.data_models.content.virtual_source")
FAKE_H5 = False

TAB = [[12 * r + c for c in range(12)] for r in range(12)]
OUT = [16 + 3 * c for c in range(12)]
V_HI, I_HI = 1e13, 1e13


def cases(tier):
    ks = range(21)
    out = [(f"rows/{k}", "inp", {"vmin": k, "imin": 8, "axis": "v"}) for k in ks]
    out += [(f"columns/{k}", "inp", {"vmin": 7, "imin": k, "axis": "i"}) for k in ks]
    out += [(f"output/{k}", "outp", {"imin": k}) for k in ks]
    both = [(7, 8), (0, 0)] if tier == "quick" else [(7, 8), (0, 0), (20, 19), (13, 3), (3, 13)]
    out += [(f"cells/{a}/{b}", "inp", {"vmin": a, "imin": b, "axis": "both"}) for a, b in both]
    out += [(f"config/{a}/{b}", "config", {"vmin": a, "imin": b}) for a, b in ((7, 8), (0, 1), (20, 20))]
    out += [(f"power/{a}/{b}", "power", {"vmin": a, "imin": b}) for a, b in ((17, 8),)]
    return out


def octave(sx, x, unit):
    """0 below 2 units, then one column per doubling, capped at the last"""
    for c in range(11):
        if sx.is_true(x < unit * 2 ** (c + 1)):
            return c
    return 11


def row(sx, x, unit):
    for r in range(11):
        if sx.is_true(x < unit * (r + 1)):
            return r
    return 11


def inp(sx, vmin, imin, axis):
    c = converter(sx, regs(mode(boost=True), inp=TAB, LUT_input_V_min_log2_uV=vmin, LUT_input_I_min_log2_nA=imin))
    v = sx.real("v", 0, V_HI) if axis in ("v", "both") else 3.5 * 2**vmin
    i = sx.real("i", 0, I_HI) if axis in ("i", "both") else 5.5 * 2**imin
    r, col = row(sx, v, 2**vmin), octave(sx, i, 2**imin)
    sx.check_eq("input efficiency of the cell", c.get_input_efficiency(v, i) * 256, TAB[r][col])


def outp(sx, imin):
    c = converter(sx, regs(mode(buck=True), out=OUT, LUT_output_I_min_log2_nA=imin))
    i = sx.real("i", 0, I_HI)
    col = octave(sx, i, 2**imin)
    sx.check_eq("output efficiency of the cell", c.get_output_inv_efficiency(i) * 16, OUT[col])


def config(sx, vmin, imin):
    """as documented with the parameters: row 0 below 2^V_min uV, column 0 below 2^I_min nA"""
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    src = VirtualSourceConfig(
        name="s", owner="o", group="g", enable_boost=True, enable_buck=True,
        LUT_input_efficiency=[[x / 256 for x in r] for r in TAB], LUT_input_V_min_log2_uV=vmin,
        LUT_input_I_min_log2_nA=imin, LUT_output_efficiency=[16 / x for x in OUT], LUT_output_I_min_log2_nA=imin)
    c = converter(sx, ConverterPRUConfig.from_vsrc(src))
    v, i = sx.real("v", 0, V_HI), sx.real("i", 0, I_HI)
    r, col = row(sx, v, 2**vmin), octave(sx, i, 2 ** (imin - 1))
    sx.check_eq("input efficiency", c.get_input_efficiency(v, i) * 256, TAB[r][col])
    sx.check_eq("output efficiency", c.get_output_inv_efficiency(i) * 16, OUT[col])


def power(sx, vmin, imin):
    """the converter looks the efficiency up at its own operating point"""
    c = converter(sx, regs(mode(boost=True, storage=True, buck=True), inp=TAB, out=OUT, LUT_input_V_min_log2_uV=vmin,
                           LUT_input_I_min_log2_nA=imin, LUT_output_I_min_log2_nA=imin))
    i = sx.real("i", 0, 4e9)
    v = 300_000.0
    c.calc_inp_power(v, i)
    col = octave(sx, i, 2**imin)
    sx.check_exact("input power", c.P_inp_fW, TAB[row(sx, v, 2**vmin)][col] / 256 * v * i, 1e3)
    raw = sx.int("raw", 0, 2**18 - 1)
    c.calc_out_power(raw)
    from shepherd_core.data_models.base.calibration import CalibrationEmulator
    i_out = CalibrationEmulator().adc_C_A.raw_to_si(raw) * 1e9
    col = octave(sx, i_out, 2**imin)
    sx.check_exact("output power", c.P_out_fW, OUT[col] / 16 * c.V_out_dac_uV * i_out, 1e3)
