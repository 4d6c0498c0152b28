"""C22 simulated targets and ADC draw physical currents and account all energy"""
import contextlib

from .common import closing, dsets, recording
from .vsrc_common import mode, regs  # noqa: F401

BOUNDS = ("targets: every parameter, voltage (0 included) and power-good state; ADC compensation: sequences of 5 (thorough 8) "
          "symbolic ADC values, symbolic calibration offset of either sign, arbitrary stored residue for one step; "
          "simulations: recordings of up to 5 symbolic samples in buffers of 1..3, arbitrary source/harvester/target outputs")
OUTSIDE = ("diode target (C38); recordings longer than 5 samples (the loops treat buffers alike); a trailing partial buffer "
           "(C07); double rounding; plots of the internals")
STUBS = ["h5py -> in-memory datasets", "buffer size of the Reader set to 1..3 samples", "virtual source / harvester model -> "
         "any sequence of outputs (their behaviour is C18..C21)", "tqdm", "logging disabled"]
MODULES = ("shepherd_core.vsource.target_model", "shepherd_core.vsource.virtual_converter_model",
           "shepherd_core.vsource.virtual_source_model", "shepherd_core.vsource.virtual_source_simulation",
           "shepherd_core.vsource.virtual_harvester_simulation")


def cases(tier):
    out = [(f"target/{n}", f"t_{n}", {}) for n in ("resistor", "current", "power", "refused")]
    out += [("adc/step", "adc_step", {}), ("adc/plain", "adc_plain", {})]
    n = 5 if tier == "quick" else 8
    out += [("adc/sequence", "adc_seq", {"n": n}), ("adc/independent", "adc_ind", {})]
    for size, nb in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1)):
        for o in (False, True):
            out += [(f"source/{size}x{nb}/file={o}", "source", {"size": size, "nb": nb, "out": o}),
                    (f"harvester/{size}x{nb}/file={o}", "harvester", {"size": size, "nb": nb, "out": o})]
    out += [("source/sampling-rate", "source", {"size": 2, "nb": 2, "out": True, "dt": 100_000})]
    out += [("model/iterate", "iterate", {"log": False}), ("model/iterate-log", "iterate", {"log": True}),
            ("model/feedback", "iterate", {"log": False, "feedback": True})]
    return out


# ---------------------------------------------------------------- targets
def t_resistor(sx):
    from shepherd_core.vsource.target_model import ResistiveTarget
    r = sx.real("r", 0.002, 1e9)
    ctrl, pg = sx.flag("ctrl"), sx.flag("pg")
    v = sx.int("v", 0, 10**9)
    i = ResistiveTarget(R_Ohm=r, controlled=ctrl).step(v, pwr_good=pg)
    if pg or not ctrl:
        sx.check_exact("Ohm's law", i * r, v * 1e3, 1e-6 * (1 + v))
    else:
        sx.check("switched off", i == 0)
    sx.check("never negative", i >= 0)


def t_current(sx):
    from shepherd_core.vsource.target_model import ConstantCurrentTarget
    a, s = sx.real("a", 1e-12, 10), sx.real("s", 0, 10)
    pg = sx.flag("pg")
    i = ConstantCurrentTarget(I_active_A=a, I_sleep_A=s).step(sx.int("v", 0, 10**9), pwr_good=pg)
    sx.check_exact("configured current", i, 1e9 * (a if pg else s), 1e-3)
    sx.check("never negative", i >= 0)


def t_power(sx):
    from shepherd_core.vsource.target_model import ConstantPowerTarget
    a, s = sx.real("a", 1e-12, 100), sx.real("s", 0, 100)
    pg = sx.flag("pg")
    v = sx.int("v", 0, 10**9)
    t = ConstantPowerTarget(P_active_W=a, P_sleep_W=s)
    ok, i = sx.attempt(lambda: t.step(v, pwr_good=pg), ArithmeticError)
    sx.check("works at any voltage", ok, detail=None if ok else repr(i))
    if not ok:
        return
    sx.check("never negative", i >= 0)
    if sx.is_true(v > 0):
        p = 1e15 * (a if pg else s)
        sx.check_exact("power is constant", i * v, p, 1e-9 * p + 1e-6)
    else:
        sx.check("nothing drawn without supply", i == 0)


def t_refused(sx):
    """non-physical parameters are refused"""
    from shepherd_core.vsource import target_model as tm
    x, y = sx.real("x", -10, 10), sx.real("y", -10, 10)
    ok, _ = sx.attempt(lambda: tm.ResistiveTarget(x), ValueError)
    sx.check("resistance positive", ok == sx.is_true(x > 1e-3))
    for cls in (tm.ConstantCurrentTarget, tm.ConstantPowerTarget):
        ok, _ = sx.attempt(lambda cls=cls: cls(x, y), ValueError)
        sx.check(f"{cls.__name__} positive", ok == sx.is_true(sx.both(x > 0, y >= 0)))


# ---------------------------------------------------------------- ADC
def adc(sx, lo, hi, gain=190e-9):
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair
    from shepherd_core.vsource.virtual_converter_model import PruCalibration
    off = sx.real("off", lo, hi)
    cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=gain, offset=off))
    return PruCalibration(cal), lambda raw: (raw * gain + off) * 1e9


def adc_plain(sx):
    p, si = adc(sx, 0, 0.01)
    for k in range(2):
        raw = sx.int(f"raw{k}", 0, 2**18 - 1)
        sx.check_exact(f"no compensation needed {k}", p.conv_adc_raw_to_nA(raw), si(raw), 1e-3)


def adc_step(sx):
    p, si = adc(sx, -0.01, 0.01)
    sx.assume(sx.neg(sx.close(p.cal.adc_C_A.offset, 0, 1e-12)))
    cap = p.RESIDUE_MAX_nA
    r0 = sx.real("r0", 0, 60_000)
    sx.assume(r0 <= cap)
    p.negative_residue_nA = r0
    raw = sx.int("raw", 0, 2**18 - 1)
    i, x = p.conv_adc_raw_to_nA(raw), si(raw)
    r1 = p.negative_residue_nA
    sx.check("never negative", i >= -1e-6)
    sx.check("residue within its limit", sx.both(r1 >= 0, r1 <= cap))
    if not sx.is_true(p.cal.adc_C_A.offset < 0):
        sx.check("untouched without negative offset", sx.both(sx.close(i, x, 1e-3), r1 == r0))
        return
    sx.check_le("pays back at most the residue", x - r0, i, 1e-3)
    sx.check_le("never more than measured", i, sx.fmax(0, x), 1e-3)
    owed = r0 + (i - x)                     # what is still to be paid back
    sx.check_exact("residue keeps the balance", r1, sx.fmin(owed, cap), 1e-3)


def adc_seq(sx, n):
    p, si = adc(sx, -0.01, -1e-9)
    got = real = 0
    for k in range(n):
        raw = sx.int(f"raw{k}", 0, 2**18 - 1)
        i = p.conv_adc_raw_to_nA(raw)
        sx.check(f"never negative {k}", i >= -1e-6)
        got, real = got + i, real + si(raw)
        sx.check_le(f"mean is never too low {k}", real, got, 1e-2)


def adc_ind(sx):
    """two converters do not share their residue"""
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair
    from shepherd_core.vsource.virtual_converter_model import PruCalibration
    cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=190e-9, offset=-0.001))
    a, b = PruCalibration(cal), PruCalibration(cal)
    a.conv_adc_raw_to_nA(sx.int("x", 0, 2**18 - 1))
    y = sx.int("y", 0, 2**18 - 1)
    sx.check_exact("own residue only", b.conv_adc_raw_to_nA(y), sx.fmax(0, (y * 190e-9 - 0.001) * 1e9), 1e-3)


# ---------------------------------------------------------------- simulations
@contextlib.contextmanager
def patched(*subs):
    old = [(o, n, getattr(o, n)) for o, n, _ in subs]
    try:
        for o, n, v in subs:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def recorded(sx, path, n, dt):
    t0 = 10**15
    v = sx.array("v", n, 0, 2**31, dtype="u4")
    c = sx.array("c", n, 0, 2**31, dtype="u4")
    gv, gi = 2.0**-28, 2.0**-30
    recording(sx, path, [t0 + k * dt for k in range(n)], v, c, cal={"voltage": (gv, 0.0), "current": (gi, 0.0)},
              data_attrs={"config": "virtual_harvester:\n  voltage_step_mV: 50\n"})
    return [(sx.at(v, k) * gv, sx.at(c, k) * gi) for k in range(n)]


def result(sx, path, want, mode_):
    """the file holds exactly the produced samples (uV, nA)"""
    from shepherd_core import Reader
    with closing(Reader(path, verbose=None)) as r:
        dt_, dv, dc = dsets(r)
        sx.check("number of samples", sx.length(dv) == len(want))
        sx.check("mode", r.get_mode() == mode_)
        gv, ov, gc, oc = dv.attrs["gain"], dv.attrs["offset"], dc.attrs["gain"], dc.attrs["offset"]
        for k, (v, i) in enumerate(want):
            sx.check_close(f"voltage {k}", dv[k] * gv + ov, 1e-6 * v, gv * 0.501)
            sx.check_close(f"current {k}", dc[k] * gc + oc, 1e-9 * i, gc * 0.501)
        return [dt_[k] for k in range(len(want))]


def source(sx, size, nb, out, dt=10_000):
    from shepherd_core import Reader
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.vsource import virtual_source_simulation as sim
    from shepherd_core.vsource.target_model import TargetABC
    n = size * nb
    d = sx.tmpdir()
    src_in = recorded(sx, d / "in.h5", n, dt)
    made, seen = [], []

    class Cnv:
        def get_power_good(self):
            return pg[len(made) - 1]

    class Source:
        def __init__(self, *a, **k):
            self.cnv = Cnv()

        def iterate_sampling(self, V_inp_uV=0, I_inp_nA=0, I_out_nA=0):
            k = len(made)
            seen.append((V_inp_uV, I_inp_nA, I_out_nA))
            made.append(sx.int(f"vo{k}", 0, 5_000_000))
            return made[-1]

    pg = [sx.flag(f"pg{k}") if k < 2 else False for k in range(n)]
    drawn, asked = [], []

    class Target(TargetABC):
        def step(self, voltage_uV, *, pwr_good):
            k = len(drawn)
            asked.append((voltage_uV, pwr_good))
            drawn.append(sx.int(f"io{k}", 0, 50_000_000))
            return drawn[-1]

    cfg = VirtualSourceConfig(name="s", owner="o", group="g")
    with patched((sim, "VirtualSourceModel", Source), (Reader, "samples_per_buffer", size)):
        e = sim.simulate_source(cfg, Target(), d / "in.h5", d / "out.h5" if out else None)
    sx.check("every sample simulated once", sx.both(len(made) == n, len(drawn) == n))
    if len(made) != n or len(drawn) != n:
        return
    for k in range(n):
        v, i = src_in[k]
        sx.check(f"input in uV {k}", sx.both(seen[k][0] <= v * 1e6 + 1e-3, seen[k][0] > v * 1e6 - 1 - 1e-3))
        sx.check(f"input in nA {k}", sx.both(seen[k][1] <= i * 1e9 + 1e-3, seen[k][1] > i * 1e9 - 1 - 1e-3))
        sx.check(f"source sees the last target current {k}", seen[k][2] == (0 if k == 0 else drawn[k - 1]))
        sx.check(f"target sees the output voltage {k}", asked[k][0] == made[k])
        sx.check(f"target sees power-good {k}", sx.iff(asked[k][1], pg[k]))
    energy(sx, e, made, drawn, dt)
    if out:
        ts = result(sx, d / "out.h5", list(zip(made, drawn)), "emulator")
        sx.check("time stamps are kept", ts == [10**15 + k * dt for k in range(n)])


def energy(sx, e, v, i, dt):
    s = 0
    for a, b in zip(v, i):
        s = s + a * b
    # the reader derives the rate from first and last stamp; a single sample counts 10 us
    step = (dt if len(v) > 1 else 10_000) * 1e-9
    sx.check_exact("energy of all samples", e * 1e15, s * step, 1e-9 * 2.5e14 * len(v) * step + 1e-6)


def harvester(sx, size, nb, out, dt=10_000):
    from shepherd_core import Reader
    from shepherd_core.data_models.content import VirtualHarvesterConfig
    from shepherd_core.vsource import virtual_harvester_simulation as sim
    n = size * nb
    d = sx.tmpdir()
    src_in = recorded(sx, d / "in.h5", n, dt)
    made, seen = [], []

    class Harvester:
        def __init__(self, *a, **k):
            pass

        def ivcurve_sample(self, _voltage_uV, _current_nA):
            k = len(made)
            seen.append((_voltage_uV, _current_nA))
            made.append((sx.int(f"vo{k}", 0, 5_000_000), sx.int(f"io{k}", 0, 50_000_000)))
            return made[-1]

    cfg = VirtualHarvesterConfig(name="h", owner="o", group="g", algorithm="mppt_opt")
    with patched((sim, "VirtualHarvesterModel", Harvester), (Reader, "samples_per_buffer", size)):
        e = sim.simulate_harvester(cfg, d / "in.h5", d / "out.h5" if out else None)
    sx.check("every sample simulated once", len(made) == n)
    if len(made) != n:
        return
    for k in range(n):
        v, i = src_in[k]
        sx.check(f"input in uV {k}", sx.both(seen[k][0] <= v * 1e6 + 1e-3, seen[k][0] > v * 1e6 - 1 - 1e-3))
        sx.check(f"input in nA {k}", sx.both(seen[k][1] <= i * 1e9 + 1e-3, seen[k][1] > i * 1e9 - 1 - 1e-3))
    energy(sx, e, [a for a, _ in made], [b for _, b in made], dt)
    if out:
        ts = result(sx, d / "out.h5", made, "harvester")
        sx.check("time stamps are kept", ts == [10**15 + k * dt for k in range(n)])


def iterate(sx, log, feedback=False):
    """one sample through the whole source: energy counters, returned voltage"""
    from shepherd_core.data_models import CalibrationEmulator
    from shepherd_core.data_models.content import VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    from shepherd_core.vsource import VirtualSourceModel
    hrv = VirtualHarvesterConfig(name="h", owner="o", group="g", algorithm="cv", voltage_mV=2500)
    cfg = VirtualSourceConfig(name="s", owner="o", group="g", enable_boost=False, enable_buck=False, C_intermediate_uF=100,
                              V_intermediate_init_mV=3000, V_input_drop_mV=100, R_input_mOhm=1000, C_output_uF=0,
                              harvester=hrv, enable_feedback_to_hrv=feedback)
    kw = {"dtype_in": EnergyDType.ivcurve, "window_size": 100, "voltage_step_V": 0.05} if feedback else {}
    m = VirtualSourceModel(cfg, CalibrationEmulator(), log_intermediate=log, **kw)
    wi, wo = sx.real("wi", 0, 1e18), sx.real("wo", 0, 1e18)
    m.W_inp_fWs, m.W_out_fWs = wi, wo
    v, i, o = sx.int("v", 0, 5_000_000), sx.int("i", 0, 1_000_000), sx.int("o", 0, 10_000_000)
    ret = m.iterate_sampling(v, i, o)
    sx.check_exact("input energy is counted", m.W_inp_fWs, wi + m.cnv.get_P_input_fW(), 1)
    sx.check_exact("output energy is counted", m.W_out_fWs, wo + m.cnv.get_P_output_fW(), 1)
    if log:
        sx.check("intermediate voltage returned", ret == m.cnv.get_V_intermediate_uV())
    else:
        sx.check_close("output voltage returned", ret, m.cnv.V_out_dac_uV, 100)
    if feedback:
        sx.check("harvester is steered to the request of the converter",
                 m.hrv.voltage_set_uV == m.cnv.V_input_request_uV)
    else:
        sx.check("harvester keeps its set-point", m.hrv.voltage_set_uV == 2_500_001)
