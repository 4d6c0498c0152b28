"""C41 maximum power trackers deliver points of the panel's curve"""
import math

BOUNDS = ("panels with arbitrary current 0..1 A and saturation current 0..10 mA (also negative current, dark), diode constants 0.5, "
          "2.5, 12 (thorough also 1, 6, 40) per volt, 1..2 rows, curves of 2..12 (thorough 24) points up to 3.3 or 5 V, "
          "open-circuit voltage 0..2 v_max given or derived, ratios 0.05..1; arbitrary scalar load voltages on a grid of 9; "
          "curves of 1..8 (thorough 12) arbitrary points for find_oc")
OUTSIDE = ("more rows or points (rows are treated alike by pandas.apply), other diode constants (the exponential is evaluated as a "
           "number), voltages that coincide with ratio*voc within rounding")
STUBS = ["none: real pandas and numpy frames carry symbolic numbers as objects"]
MODULES = ("shepherd_data", "shepherd_data.mppt")
EPS = 1e-9


def cases(tier):
    q = tier == "quick"
    cs = (0.5, 2.5, 12) if q else (0.5, 1, 2.5, 6, 12, 40)
    out = [(f"model/{kind}/{c}", "model", {"kind": kind, "c": c}) for kind in ("array", "scalar") for c in cs]
    for pts in (2, 5, 12) if q else (2, 3, 5, 8, 12, 24):
        for c in cs:
            out.append((f"optimal/{pts}/{c}", "optimal", {"pts": pts, "c": c, "rows": 1}))
            for voc in ("given", "missing"):
                for ratio in (0.76, 0.05, 1) if pts == 5 else (0.76,):
                    if voc == "missing" and pts > 6 and q:
                        continue
                    out.append((f"oc/{pts}/{c}/{voc}/{ratio}", "oc", {"pts": pts, "c": c, "voc": voc, "ratio": ratio, "rows": 1}))
    out += [("optimal/rows", "optimal", {"pts": 3, "c": 2.5, "rows": 2}), ("oc/rows", "oc", {"pts": 3, "c": 2.5, "voc": "given", "ratio": 0.8, "rows": 2})]
    out += [(f"find/{n}/{r}", "find", {"n": n, "ratio": r}) for n in ((1, 2, 4, 8) if q else (1, 2, 3, 4, 6, 8, 12)) for r in (0.05, 0.5)]
    return out


def panel(sx, k, dark=False):
    a = sx.real(f"a{k}", -0.01 if dark else 0, 1)
    b = sx.real(f"b{k}", 0, 0.01)
    return a, b


def current(sx, a, b, c, v):
    return sx.fmax(0, a - b * (math.exp(c * v) - 1))


def model(sx, kind, c):
    import numpy as np
    import pandas as pd
    from shepherd_data.mppt import iv_model
    a, b = panel(sx, 0, dark=True)
    coeffs = pd.Series({"a": a, "b": b, "c": c, "time": 0.0}, dtype=object)
    volts = [k * 0.625 for k in range(9)]
    if kind == "array":
        got = iv_model(np.array(volts), coeffs)
        sx.check_eq("one current per voltage", len(got), 9)
        got = [got[k] for k in range(9)]
    else:
        got = [iv_model(v, coeffs) for v in volts]
    for k, v in enumerate(volts):
        want = current(sx, a, b, c, v)
        sx.check_close(f"current at {v} V", got[k], want, EPS * max(1, math.exp(c * v)))
        sx.check("never negative", got[k] >= 0)
    sx.observe("first", got[0])


def frame(sx, rows, c, voc, top, dark=True):
    import pandas as pd
    d = {"time": [0.02 * k for k in range(rows)], "a": [], "b": [], "c": [c * (1 + k) for k in range(rows)]}
    for k in range(rows):
        a, b = panel(sx, k, dark)
        d["a"].append(a)
        d["b"].append(b)
    if voc:
        d["voc"] = [sx.real(f"voc{k}", 0, 2 * top) for k in range(rows)]
    df = pd.DataFrame({k: pd.Series(x, dtype=object if k in ("a", "b", "voc") and sx.sym else float) for k, x in d.items()})
    return df, d


def finish(sx, res, d, rows):
    sx.check_eq("one result per row", len(res), rows)
    if len(res) != rows:
        return None
    for key in ("time", "a", "b", "c"):
        sx.check(f"{key} is kept", key in res.columns)
        if key not in res.columns:
            return None
        for k in range(rows):
            sx.check_eq(f"{key} is unchanged", res[key].iloc[k], d[key][k])
    if "v" not in res.columns or "i" not in res.columns:
        sx.check("voltage and current are returned", False)
        return None
    return [res["v"].iloc[k] for k in range(rows)], [res["i"].iloc[k] for k in range(rows)]


def optimal(sx, pts, c, rows):
    from shepherd_data.mppt import OptimalTracker
    top = sx.choice("v_max", [5.0, 3.3])
    df, d = frame(sx, rows, c, False, top)
    got = finish(sx, OptimalTracker(top, pts).process(df), d, rows)
    if got is None:
        return
    for k in range(rows):
        v, i = got[0][k], got[1][k]
        on, best = [], []
        for j in range(pts):
            x = top * j / (pts - 1)
            y = current(sx, d["a"][k], d["b"][k], d["c"][k], x)
            tol = EPS * max(1, math.exp(d["c"][k] * x))
            on.append(sx.both(v >= x - EPS, v <= x + EPS, i >= y - tol, i <= y + tol))
            best.append(v * i >= x * y - tol * top)
        sx.check("a point of the curve", sx.either(*on))
        sx.check("nothing yields more", sx.both(*best))
        sx.observe(f"p{k}", sx.is_true(i > 0))


def oc(sx, pts, c, voc, ratio, rows):
    from shepherd_data.mppt import OpenCircuitTracker
    top = sx.choice("v_max", [5.0, 3.3])
    df, d = frame(sx, rows, c, voc == "given", top)
    grid = [top * j / (pts - 1) for j in range(pts)]
    curves = [[current(sx, d["a"][k], d["b"][k], d["c"][k], x) for x in grid] for k in range(rows)]
    tols = [[EPS * max(1, math.exp(d["c"][k] * x)) for x in grid] for k in range(rows)]
    if voc == "given":
        for k in range(rows):
            for x in grid:
                sx.assume(abs(d["voc"][k] * ratio - x) > 1e-9) if x else None
    else:
        for k in range(rows):
            # decided by rounding otherwise
            for y, t in zip(curves[k], tols[k]):
                sx.assume(sx.either(y == 0, abs(y - 0.05 * curves[k][0]) > 4 * t + 1e-9))
            sx.assume(sx.either(curves[k][0] == 0, curves[k][0] > 1e-6))
    got = finish(sx, OpenCircuitTracker(top, pts, ratio).process(df), d, rows)
    if got is None:
        return
    for k in range(rows):
        v, i = got[0][k], got[1][k]
        sx.check("a point of the curve", sx.either(*[sx.both(v >= x - EPS, v <= x + EPS, i >= y - t, i <= y + t)
                                                     for x, y, t in zip(grid, curves[k], tols[k])]))
        if voc == "given":
            lim = [ratio * d["voc"][k]]
        else:
            lim = near_oc(sx, grid, curves[k], 0.05)
        # highest grid voltage below the limit (0 V if there is none)
        sx.check("tracks the share of the open-circuit voltage", sx.either(*[
            sx.both(c_, sx.either(v <= 1e-9, v < lm * f - 1e-12), *[sx.either(x <= v + EPS, x >= lm * f - EPS) for x in grid])
            for c_, lm, f in ([(True, lim[0], 1)] if voc == "given" else [(c_, lm, ratio) for c_, lm in lim])]))
        sx.observe(f"zero{k}", sx.is_true(v <= 1e-9))


def near_oc(sx, grid, cur, share):
    """possible open-circuit voltages: last point with at least that share of the first current, or the one after it"""
    out = [(cur[0] <= 0, grid[0])]
    for j, x in enumerate(grid):
        last = sx.both(cur[0] > 0, cur[j] >= share * cur[0], *[y < share * cur[0] for y in cur[j + 1:]])
        out.append((last, x))
        if j + 1 < len(grid):
            out.append((last, grid[j + 1]))
    return out


def find(sx, n, ratio):
    from shepherd_data.mppt import find_oc
    import numpy as np
    first = sx.real("i0", 0, 1)
    cur = [first]
    # currents of a panel never rise with the voltage
    for k in range(1, n):
        x = sx.real(f"i{k}", 0, 1)
        sx.assume(x <= cur[-1])
        cur.append(x)
    for x in cur[1:]:
        sx.assume(sx.either(first == 0, abs(x - ratio * first) > 1e-9))
    grid = [0.5 * k for k in range(n)]
    if sx.sym:
        from symx.arrays import nd
        arr = nd(cur)
    else:
        arr = np.array(cur)
    got = find_oc(np.array(grid), arr, ratio)
    sx.check("next to the last current above the share", sx.either(*[sx.both(c, got == v) for c, v in near_oc(sx, grid, cur, ratio)]))
    sx.observe("v", got)
