"""C01 calibration raw <-> SI"""
BOUNDS = ("gain in [1e-12, 1e4], |offset| <= 1e6*gain, raw 0..2^32-1, SI magnitude <= 2^33*gain; "
          "arrays: any length up to 2^20, any element (uint32 / float64)")
OUTSIDE = "double rounding (1e-9 relative tolerance); gains outside the range"
STUBS = []


def cases(tier):
    out = []
    for c in ("scalar_raw", "scalar_roundtrip", "scalar_si", "array_raw", "array_si",
              "array_roundtrip"):
        for neg in ((True, False) if "raw" in c else (True,)):
            out.append((f"{c}/neg={neg}", c, {"neg": neg}))
    out.append(("int_raw_types", "small_array", {}))
    return out


def pair(sx):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    g = sx.real("gain", 1e-12, 1e4)
    o = sx.real("offset", -1e10, 1e10)
    sx.assume(o <= 1e6 * g)
    sx.assume(o >= -1e6 * g)
    return CalibrationPair(gain=g, offset=o), g, o


def scalar_raw(sx, neg):
    cal, g, o = pair(sx)
    raw = sx.int("raw", 0, 2**32 - 1)
    si = cal.raw_to_si(raw, allow_negative=neg)
    exp = raw * g + o
    if not neg:
        exp = sx.fmax(exp, 0.0)
    sx.check("float result", isinstance(si, float))
    sx.check_close("si = raw*gain+offset", si, exp, 1e-9 * (raw * g + abs(o)))
    sx.observe("si", si)


def scalar_roundtrip(sx, neg=True):
    cal, g, o = pair(sx)
    raw = sx.int("raw", 0, 2**32 - 1)
    back = cal.si_to_raw(cal.raw_to_si(raw))
    sx.check("roundtrip is exact", back == raw)
    sx.check("integer result", isinstance(back, int))
    sx.observe("back", back)


def scalar_si(sx, neg=True):
    cal, g, o = pair(sx)
    t = sx.real("t", -2.0**33, 2.0**33)
    si = t * g + o
    raw = cal.si_to_raw(si)
    sx.check("never negative", raw >= 0)
    sx.check("integer", isinstance(raw, int))
    err = raw * g + o - si
    tol = 1e-6 * g
    sx.check_le("not more than half a step above", err, 0.5 * g + sx.fmax(0.0 - (si - o), 0.0), tol)
    if sx.is_true(si >= o):
        sx.check_le("not more than half a step below", -err, 0.5 * g, tol)
    else:
        sx.check("clamped at zero", raw == 0)
        sx.cover("clamped")
    sx.observe("sgn", raw == 0)


def array_raw(sx, neg):
    cal, g, o = pair(sx)
    n = sx.int("n", 0, 2**20)
    v = sx.vec("v", n, 0, 2**32 - 1, dtype="u4")
    keep = v.copy()
    si = cal.raw_to_si(v, allow_negative=neg)
    sx.check("same length", sx.length(si) == n)

    def f(k):
        e = sx.at(keep, k) * g + o
        if not neg:
            e = sx.fmax(e, 0.0)
        return [("value", sx.close(sx.at(si, k), e, 1e-9 * (sx.at(keep, k) * g + abs(o)))),
                ("input untouched", sx.at(v, k) == sx.at(keep, k))]
    sx.forall("every element", n, f)


def array_si(sx, neg=True):
    cal, g, o = pair(sx)
    n = sx.int("n", 0, 2**20)
    t = sx.vec("t", n, -2.0**33, 2.0**33, kind="real", dtype="f8")
    si = t * g + o
    raw = cal.si_to_raw(si)
    sx.check("same length", sx.length(raw) == n)

    def f(k):
        r, s = sx.at(raw, k), sx.at(t, k) * g + o
        e = r * g + o - s
        pos = s >= o
        tol = 0.5 * g + 1e-6 * g
        return [("not negative", r >= 0), ("whole number", sx.floor(r) == r),
                ("nearest", sx.implies(pos, sx.both(e <= tol, e >= -tol))),
                ("clamped", sx.implies(s < o, r == 0))]
    sx.forall("every element", n, f)


def array_roundtrip(sx, neg=True):
    cal, g, o = pair(sx)
    n = sx.int("n", 0, 2**20)
    v = sx.vec("v", n, 0, 2**32 - 1, dtype="u4")
    back = cal.si_to_raw(cal.raw_to_si(v))
    sx.forall("roundtrip", n, lambda k: sx.at(back, k) == sx.at(v, k))


def small_array(sx):
    """arrays and scalars convert identically"""
    cal, g, o = pair(sx)
    n = 3
    v = sx.array("v", n, 0, 2**32 - 1, dtype="u4")
    s = sx.array("s", n, -2.0**20, 2.0**20, kind="real")
    a = cal.raw_to_si(v)
    b = cal.raw_to_si(v, allow_negative=False)
    c = cal.si_to_raw(s * g)
    for i in range(n):
        x = sx.trunc(v[i])
        sx.check_close("raw_to_si", a[i], cal.raw_to_si(x), 1e-9 * (x * g + abs(o)))
        sx.check_close("raw_to_si clamped", b[i], cal.raw_to_si(x, allow_negative=False),
                       1e-9 * (x * g + abs(o)))
        y = cal.si_to_raw(s[i] * g)
        sx.check_le("si_to_raw", abs(c[i] - y), 0)
        sx.observe(f"c{i}", c[i])
