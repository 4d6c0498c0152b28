"""C10 energy, statistics and time checks do not depend on internal chunking"""
from .common import closing, iso_time, recording

BOUNDS = ("energy/statistics: arbitrary content, length symbolic up to 3.x processing chunks for chunk sizes 7, 1000, "
          "10000 and the default of 4 million samples; time check: files of up to 6 (quick) / 9 buffers, symbolic "
          "start time of every buffer, chunks of 1, 2 and 3 buffers and the default")
OUTSIDE = ("double rounding (sums are exact reals), mean/std (documented as approximate in the code), jumps between "
           "4.9 % and 5.1 % of the nominal buffer interval (rounding boundary of the tolerance)")
STUBS = ["h5py -> in-memory datasets with symbolic length/content", "tqdm", "logging disabled"]


def cases(tier):
    out = []
    for ch in (7, 1000, 10_000, None):
        out.append((f"energy/{ch}", "energy", {"chunk": ch}))
        out.append((f"minmax/{ch}", "minmax", {"chunk": ch}))
    m = 5 if tier == "quick" else 8
    for ch in (10_000, 20_000, 30_000, None):
        for nb in range(m + 1):
            out.append((f"timediff/{ch}/{nb}", "timediff", {"chunk": ch, "nb": nb}))
    for ch in (None, 20_000):
        out.append((f"timecheck-iso/{ch}", "iso", {"chunk": ch}))
    return out


def energy(sx, chunk):
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    size = chunk or 4_000_000
    n = sx.int("n", 0, 3 * size + 5)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    dt = sx.choice("dt", [10_000, 100_000, 1_000_000])
    t = iso_time(sx, n, sx.int("t0", 0, 2**60), dt)
    gv, ov, gc, oc = 3e-9, -0.015625, 2e-10, 1e-6
    recording(sx, path, t, v, c, cal={"voltage": (gv, ov), "current": (gc, oc)})
    with closing(Reader(path, verbose=None)) as r:
        if chunk:
            r.max_elements = chunk
        e = r.energy()
        s = sx.vsum((v * gv + ov) * (c * gc + oc))
        dt_s = dt * 1e-9 if sx.is_true(n >= 2) else 1e-5
        sx.check_close("energy is the sum of all samples", e, s * dt_s, abs(s * dt_s) * 1e-9 + 1e-12)
        sx.observe("zero", n == 0)


def minmax(sx, chunk):
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    size = chunk or 4_000_000
    n = sx.int("n", 0, 2 * size + 5)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    g, o = 2.0**-24, sx.choice("ov", [0.0, -0.5, 1.0])
    recording(sx, path, iso_time(sx, n, 0, 10_000), v, c, cal={"voltage": (g, o)})
    with closing(Reader(path, verbose=None)) as r:
        if chunk:
            r.max_elements = chunk
        md = r.get_metadata(r.h5file["data"]["voltage"])
        st = md["_dataset_info"]["statistics"]
        if not sx.is_true(n > 0):
            sx.check("nothing reported for an empty dataset", "min" not in st)
            sx.observe("empty", True)
            return
        sx.forall("bounds", n, lambda k: [("min", st["min"] <= sx.at(v, k) * g + o),
                                          ("max", st["max"] >= sx.at(v, k) * g + o)])
        if sx.sym:
            # some element attains the extremum: among all element terms the code looked at
            hits = [i for i in sx.vecs["v"][2]]
            for what in ("min", "max"):
                from symx.engine import SymInt
                sx.exists_in(f"{what} is attained", n,
                             lambda k: sx.at(v, k) * g + o == st[what], [SymInt(i) for i in hits])
        else:
            import numpy as np
            si = v.astype("f8") * g + o
            sx.check("min is attained", st["min"] == np.min(si))
            sx.check("max is attained", st["max"] == np.max(si))
        sx.observe("empty", False)


def timediff(sx, chunk, nb):
    """nb buffers with arbitrary start times (inside a buffer the stamps follow the start)"""
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    n = nb * 10_000
    gaps = [sx.int(f"gap{i}", 0, 10**9) for i in range(max(0, nb - 1))]
    start = [sx.int("t0", 0, 2**50)]
    for g in gaps:
        start.append(start[-1] + g)
    if sx.sym:
        from symx.arrays import SymVec
        from symx.engine import SymBool, SymInt, lift
        import z3

        def fn(i):
            i = z3.simplify(i)
            b = i / 10_000
            e = lift(start[-1])[0]
            for k in range(nb - 2, -1, -1):
                e = z3.If(b == k, lift(start[k])[0], e)
            # the very last stamp only serves the (concrete) duration statistics
            e = z3.If(i == n - 1, lift(start[0])[0] + (n - 1) * 10_000, e + (i % 10_000) * 10)
            return SymInt(z3.simplify(e), 64)
        t = SymVec(n, fn, dtype="u8")
        _ = SymBool
    else:
        import numpy as np
        t = np.concatenate([np.arange(10_000, dtype="u8") * 10 + np.uint64(s) for s in start]
                           ) if nb else np.array([], dtype="u8")
        if nb:
            t[-1] = t[0] + (n - 1) * 10_000
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    recording(sx, path, t, v, c)
    nominal, tol = 100_000_000, 5_000_000
    for g in gaps:
        d = abs(g - nominal)
        sx.assume(sx.either(d <= tol - 100_000, d >= tol + 100_000))
    with closing(Reader(path, verbose=None)) as r:
        if chunk:
            r.max_elements = chunk
        ok = r.check_timediffs()
        good = sx.both(True, *[abs(g - nominal) < tol for g in gaps])
        sx.check("accepted exactly when equally spaced", sx.iff(ok, good))
        sx.observe("ok", sx.is_true(ok))


def iso(sx, chunk):
    """iso-chronous files of any length are accepted, of another interval refused"""
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 0, 65_000)
    dt = sx.choice("dt", [10_000, 11_000, 100_000])
    t = iso_time(sx, n, sx.int("t0", 0, 2**60), dt)
    recording(sx, path, t, sx.vec("v", n, 0, 2**32 - 1), sx.vec("c", n, 0, 2**32 - 1))
    with closing(Reader(path, verbose=None)) as r:
        if chunk:
            r.max_elements = chunk
        ok = r.check_timediffs()
        sx.check("verdict", sx.iff(ok, sx.either(dt == 10_000, n <= 10_000)))
        sx.observe("ok", sx.is_true(ok))
