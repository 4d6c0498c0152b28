"""C39 the reported voltage step is the step of the recorded curve, in volts"""
from .common import closing, recording

BOUNDS = ("recordings of 0..5 (thorough 7) samples with arbitrary raw voltages and symbolic calibration offset (3 gains); "
          "stored step: any real number of mV")
OUTSIDE = "recordings longer than the analysed prefix; double rounding (relative 1e-9)"
STUBS = ["h5py -> in-memory datasets", "logging disabled"]


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = [(f"measured/{k}/{g}", "measured", {"n": k, "g": g}) for k in range(n + 1) for g in range(3)]
    out += [("ramp", "ramp", {}), ("stored", "stored", {})]
    return out


def measured(sx, n, g):
    from shepherd_core import Reader
    gain = (3e-9, 2.0**-20, 1e-3)[g]
    path = sx.tmpdir() / "a.h5"
    v = sx.array("v", n, 0, 2**32 - 1, dtype="u4")
    recording(sx, path, [10**15 + 10_000 * k for k in range(n)], v, [1] * n,
              cal={"voltage": (gain, sx.real("off", -1, 1))})
    with closing(Reader(path, verbose=None)) as r:
        s = r.get_voltage_step()
    raw = [sx.at(v, k) for k in range(n)]
    d = [abs(a - b) for a, b in zip(raw[1:], raw)]
    if s is None:
        sx.check("only constant voltages have no step", sx.both(True, *[x == 0 for x in d]))
        return
    sx.check("a step was recorded", sx.either(False, *[x > 0 for x in d]))
    sx.check("step is positive", s > 0)
    for x in d:
        sx.check("no smaller step", sx.either(x == 0, s <= x * gain * (1 + 1e-6) + 1e-9))
    sx.check("step occurs in the recording", sx.either(False, *[sx.both(x > 0, sx.close(
        s, x * gain, 1e-9 + 1e-6 * x * gain)) for x in d]))


def ramp(sx):
    """curve with constant step, rising or falling, with one jump back"""
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    gain = 3e-9
    lo, st = sx.int("lo", 0, 2**30), sx.int("st", 1, 2**28)
    falling = sx.flag("falling")
    k = [3, 2, 1, 0, 3, 2] if falling else [0, 1, 2, 3, 0, 1]
    v = sx.matrix([[lo + st * x for x in k]])[0]
    recording(sx, path, [10**15 + 10_000 * x for x in range(6)], v, [1] * 6, cal={"voltage": (gain, 0.0)})
    with closing(Reader(path, verbose=None)) as r:
        s = r.get_voltage_step()
    sx.check("step found", s is not None)
    if s is not None:
        sx.check_close("step of the ramp", s, st * gain, 1e-9)


def stored(sx):
    """a stored harvester configuration has precedence"""
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    mv = sx.choice("mv", (0.25, 1, 50, 1234.5))
    v = sx.array("v", 3, 0, 2**32 - 1, dtype="u4")
    recording(sx, path, [10**15 + 10_000 * k for k in range(3)], v, [1] * 3,
              data_attrs={"config": f"virtual_harvester:\n  voltage_step_mV: {mv}\n"})
    with closing(Reader(path, verbose=None)) as r:
        s = r.get_voltage_step()
    sx.check_close("stored step in volts", s, mv * 1e-3, 1e-9)
