"""C36 calibration fit recovers the measured line"""
import numpy as np

BOUNDS = ("2 points with free raw values, 2..4 (thorough: 5) points with free references on fixed raw values (even, uneven, unsorted, repeated raw "
          "values), raw values 1..2^18, references -5..10; one free point beside a line of five; component mapping: two points per channel with free gain and offset")
OUTSIDE = "numerical behaviour of LAPACK (replays use the real numpy.polyfit), correlation closer than 1e-6 to the limit"
STUBS = ["numpy.polyfit of degree 1 -> exact solution of the normal equations"]
MODULES = ("shepherd_core.data_models.base.cal_measurement",)
FAKE_H5 = False

XS = {"two": [1000, 50_000], "even": [0.5, 1.5, 2.5], "uneven": [12, 500, 60_000], "unsorted": [40_000, 10, 300, 7000],
      "repeated": [5, 5, 2000, 2000], "five": [1, 10, 100, 1000, 10_000]}
LIMIT = 0.999


def lsq(x, y):
    n = len(x)
    sx_, sy = sum(x[1:], x[0]), sum(y[1:], y[0])
    cx, cy = [v * n - sx_ for v in x], [v * n - sy for v in y]
    sxx = sum(v * v for v in cx)
    sxy = sum(a * b for a, b in zip(cx, cy))
    return n, sx_, sy, sxx, sxy, sum(v * v for v in cy)


def fit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    """numpy.polyfit"""
    from symx.engine import Unsupported
    if deg != 1 or full or cov or w is not None:
        raise Unsupported("polyfit with these options")
    x, y = list(x), list(y)
    n, sx_, sy, sxx, sxy, _ = lsq(x, y)
    if bool(sxx == 0):
        raise Unsupported("polyfit of a single raw value")
    gain = sxy / sxx
    return np.array([gain, (sy - gain * sx_) / n], dtype=object)


class Poly:
    def __init__(self, c):
        self.c = self.coef = self.coeffs = np.array(list(c), dtype=object)

    def __getitem__(self, k):
        return self.c[::-1][k] if k < len(self.c) else 0

    def __call__(self, x):
        r = 0
        for c in self.c:
            r = r * x + c
        return r


def extra_shims():
    from symx import shims
    from symx.arrays import NPProxy

    def obj(real):
        def call(*a, **k):
            k.pop("dtype", None)
            if real in (np.array, np.asarray, np.full):
                a = (a[0] if real is np.full else list(a[0]), *(a[1:] if real is np.full else ()))
            else:
                a = a[:1]
            return real(*a, dtype=object, **k)
        return call

    class NPFit(NPProxy):
        def __getattr__(self, name):
            if name in ("empty", "zeros", "ones", "full", "array", "asarray"):
                return obj(getattr(np, name))
            if name == "polyfit":
                return fit
            if name == "polyval":
                return lambda p, x: Poly(p)(x)
            if name == "poly1d":
                return Poly
            return NPProxy.__getattr__(self, name)
    shims.MODULE_SHIMS[np] = NPFit()


def cases(tier):
    o = {"t_query": 5000, "t_hard": 60_000}
    out = [("free/2", "free", {"n": 2}, o)]
    if tier == "thorough":
        out.append(("free/3", "free", {"n": 3}, {"budget": 400, "t_query": 20_000, "t_hard": 200_000}))
    out += [(f"fixed/{k}", "fixed", {"k": k}, o) for k in XS if k != "five" or tier == "thorough"]
    out += [(f"off/{k}", "off", {"k": k}, o) for k in range(5)]
    out += [(f"flat/{k}", "flat", {"k": k}) for k in (*XS, "odd")]
    out += [("line", "line", {}, o)]
    out += [(f"cape/{k}", "cape", {"which": k}) for k in ("harvester", "emulator", "both", "none")]
    return out


def pairs(x, y):
    return [{"shepherd_raw": a, "reference_si": b} for a, b in zip(x, y)]


def decide(sx, x, y):
    from shepherd_core.data_models.base.cal_measurement import meas_to_cal
    n, sx_, sy, sxx, sxy, syy = lsq(x, y)
    sx.assume(syy > 1e-3)
    ok, cal = sx.attempt(lambda: meas_to_cal(pairs(x, y), "test"), ValueError)
    r, lim = sxy * sxy, sxx * syy
    linear = sx.is_true(r >= (LIMIT + 1e-6) * lim)
    poor = not linear and sx.is_true(r <= (LIMIT - 1e-6) * lim)
    rising = sx.is_true(sxy > 0)
    if poor:
        sx.check("measurement without linear correlation is refused", not ok)
    if linear and rising:
        sx.check("linear measurement is accepted", ok)
    if not rising:
        sx.check("falling line is refused", not ok)
    if ok:
        sx.check_close("gain of the least-squares line", cal.gain * sxx, sxy, 1e-4 + sxx * 1e-9)
        sx.check_close("offset of the least-squares line", cal.offset * n, sy - cal.gain * sx_, 1e-6)


def free(sx, n):
    x = [sx.real(f"x{k}", 1, 2**18) for k in range(n)]
    y = [sx.real(f"y{k}", -5, 10) for k in range(n)]
    for k in range(n - 1):
        d = x[k + 1] - x[k]
        sx.assume(sx.either(d >= 10, d <= -10))
    decide(sx, x, y)


def fixed(sx, k):
    x = XS[k]
    decide(sx, x, [sx.real(f"y{j}", -5, 10) for j in range(len(x))])


def off(sx, k):
    """one of five points beside the line"""
    x = XS["five"]
    y = [0.001 * v - 1 for v in x]
    y[k] = sx.real("y", -20, 20)
    decide(sx, x, y)


def line(sx):
    """points on a line give back the line"""
    from shepherd_core.data_models.base.cal_measurement import meas_to_cal
    g, o = sx.real("gain", 1e-6, 2), sx.real("offset", -3, 3)
    x = XS["uneven"]
    cal = meas_to_cal(pairs(x, [g * v + o for v in x]), "test")
    sx.check_close("gain", cal.gain, g, 1e-8)
    sx.check_close("offset", cal.offset, o, 1e-5)
    sx.check_close("reading", cal.raw_to_si(777.0), g * 777 + o, 1e-5)


def flat(sx, k):
    from shepherd_core.data_models.base.cal_measurement import meas_to_cal
    x = XS.get(k) or [64788, 60035, 16590, 71818]
    v = sx.real("v", 4.3075041, 4.3075043) if k == "odd" else sx.real("v", -5, 10)
    ok, _ = sx.attempt(lambda: meas_to_cal(pairs(x, [v] * len(x)), "test"), ValueError)
    sx.check("constant reference is refused", not ok)


CHANNELS = {"harvester": ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"),
            "emulator": ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")}


def cape(sx, which):
    """every channel gets the line of its own measurement"""
    from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape
    from shepherd_core.data_models.base.calibration import CalibrationCape, CapeData
    data, lines = {}, {}
    for part in ("harvester", "emulator"):
        if which not in (part, "both"):
            continue
        data[part] = {}
        for c in CHANNELS[part]:
            g, o = sx.real(f"g_{c}", 1e-6, 2), sx.real(f"o_{c}", -3, 3)
            lines[part, c] = g, o
            data[part][c] = pairs([100, 3000], [g * 100 + o, g * 3000 + o])
    if sx.flag("known"):
        data["host"] = "sheep3"
        data["cape"] = CapeData(serial_number="A9")
    meas = CalMeasurementCape(**data)
    cal = meas.to_cal()
    ref = CalibrationCape()
    sx.check("host", cal.host == data.get("host"))
    sx.check("cape", cal.cape == data.get("cape"))
    for part in CHANNELS:
        for c in CHANNELS[part]:
            got = getattr(getattr(cal, part), c)
            want = lines.get((part, c))
            if want is None:
                d = getattr(getattr(ref, part), c)
                want = d.gain, d.offset
            sx.check_close("gain of channel", got.gain, want[0], 1e-8)
            sx.check_close("offset of channel", got.offset, want[1], 1e-5)
