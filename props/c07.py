"""C07 buffered reading visits each sample of the range exactly once, in order"""
from .common import closing, recording

BOUNDS = ("recordings of 0..2^22 arbitrary samples, first buffer symbolic (every buffer of the file), up to 3 "
          "consecutive buffers, buffer sizes 1/7/1000/10000/65536 and symbolic 1..2^20")
OUTSIDE = "the HDF5 library; more than 3 consecutive buffers in one call (the loop body does not depend on the history)"
STUBS = ["h5py -> in-memory datasets with symbolic length/content", "logging disabled"]
N = 2**22


def cases(tier):
    out = []
    for size in (None, 1, 7, 1000, 65536) if tier == "quick" else (
            None, 1, 2, 3, 7, 64, 1000, 9999, 10001, 65536, 2**20):
        out.append((f"raw/{size}", "rd", {"size": size, "raw": True}))
        out.append((f"si/{size}", "rd", {"size": size, "raw": False}))
    out.append(("omit/raw", "rd", {"size": None, "raw": True, "omit": True}))
    out.append(("omit/si", "rd", {"size": 1000, "raw": False, "omit": True}))
    out.append(("open-end", "rd", {"size": None, "raw": True, "open_end": True}))
    out.append(("open-end/1000", "rd", {"size": 1000, "raw": True, "open_end": True}))
    out.append(("symbolic-size", "rd", {"size": "sym", "raw": True}))
    return out


def rd(sx, size, raw, omit=False, open_end=False):
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    if size == "sym":
        s = kw = sx.int("size", 1, 2**20)
    else:
        s, kw = size or 10_000, size
    n = sx.int("n", 0, N if s != 1 else 200)
    t = sx.vec("t", n, 0, 2**62, dtype="u8")
    if sx.is_true(n > 0):
        sx.assume(sx.at(t, n - 1) == sx.at(t, 0))
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    cal = {k: (sx.real(f"g_{k}", 1e-12, 1.0), sx.real(f"o_{k}", -1.0, 1.0))
           for k in ("voltage", "current")}
    cal["time"] = (1e-9, sx.real("o_time", 0.0, 1e6))
    recording(sx, path, t, v, c, cal=cal)
    start = sx.int("start", 0, N)
    kwargs = {"start_n": start, "n_samples_per_buffer": kw, "is_raw": raw, "omit_ts": omit}
    avail = n // s
    if size == "sym":
        q = sx.int("avail", 0, N)
        sx.assume(sx.both(q * s <= n, n < q * s + s))
        avail = q
    if open_end:
        sx.assume(start >= avail - 3)
        end = avail
    else:
        stop = sx.int("end", 0, 2 * N)
        sx.assume(stop <= start + 3)
        kwargs["end_n"] = stop
        end = sx.fmin(stop, avail)
    with closing(Reader(path, verbose=None)) as r:
        k = 0
        for bt, bv, bc in r.read_buffers(**kwargs):
            b = start + k
            sx.check("buffer belongs to the range", b < end)
            sx.check("stamps present unless omitted", (bt is None) == omit)
            sx.check("sizes", sx.both(bv.shape[0] == s, bc.shape[0] == s,
                                      True if omit else bt.shape[0] == s))
            sx.cover(f"buffer {k}")

            def f(i, b=b, bt=bt, bv=bv, bc=bc):
                out = []
                for nm, got, src, name in (("time", bt, t, "time"), ("voltage", bv, v, "voltage"),
                                           ("current", bc, c, "current")):
                    if got is None:
                        continue
                    x = sx.at(src, b * s + i)
                    if raw:
                        out.append((nm, sx.at(got, i) == x))
                    else:
                        g, o = cal[name]
                        e = x * g + o
                        out.append((nm, sx.close(sx.at(got, i), e, 1e-9 * abs(e) + 1e-9)))
                return out
            sx.forall("content", s, f)
            k += 1
            if k > 3:
                break
        sx.check("no complete buffer missing", start + k >= end)
        sx.check("no extra buffer", sx.either(k == 0, start + k <= end))
        sx.observe("count", k)
