"""C06 closing a recording only trims the incomplete last buffer"""
from .common import dsets, iso_time, recording

BOUNDS = ("recorded length symbolic 0..2^21, arbitrary content, fresh and modified files, close by normal end and by "
          "exception; other sample rates: sampling intervals 10.1 us .. 1 ms (list)")
OUTSIDE = "the HDF5 library; recordings whose sampling interval jitters"
STUBS = ["h5py -> in-memory datasets with symbolic length/content", "logging disabled"]
N = 2**21


def cases(tier):
    out = [("fresh", "fresh", {}), ("fresh/exception", "fresh", {"exc": True}),
           ("fresh/array-stamps", "fresh", {"arr": True}),
           ("modify", "modify", {}), ("modify/append", "modify", {"append": True}),
           ("same-stamps", "same_stamps", {})]
    for dt in (20_000, 100_000, 10_100, 1_000_000, 5_000):
        out.append((f"other-rate/{dt}", "other_rate", {"dt": dt}))
    return out


def finish(sx, path, exp_n, *olds):
    f = sx.h5_open(path)
    d = f["data"]
    for name, old in zip(("time", "voltage", "current"), olds):
        sx.check(f"length of {name}", d[name].shape[0] == exp_n)
        if old is not None:
            sx.forall(f"{name} unchanged", sx.fmin(exp_n, d[name].shape[0]),
                      lambda k: sx.at(d[name], k) == sx.at(old, k))
    sx.observe("n", d["voltage"].shape[0])
    f.close()


def fresh(sx, exc=False, arr=False):
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 0, N)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    t0 = sx.int("t0", 0, 2**61)
    t = iso_time(sx, n, t0, 10_000)

    class Boom(Exception):
        pass
    raised = False
    try:
        with Writer(path, verbose=None) as w:
            w.append_iv_data_raw(t if arr else t0, v, c)
            if exc:
                raise Boom
    except Boom:
        raised = True
    sx.check("exception passes through", raised == exc)
    finish(sx, path, (n // 10_000) * 10_000, t, v, c)


def modify(sx, append=False):
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 0, N)
    t0 = sx.int("t0", 0, 2**61)
    t = iso_time(sx, n, t0, 10_000)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    recording(sx, path, t, v, c)
    tot = n
    with Writer(path, modify_existing=True, verbose=None) as w:
        if append:
            m = sx.int("m", 0, 2**16)
            w.append_iv_data_raw(iso_time(sx, m, t0 + n * 10_000, 10_000),
                                 sx.vec("v2", m, 0, 2**32 - 1), sx.vec("c2", m, 0, 2**32 - 1))
            tot = n + m
    if append:
        f = sx.h5_open(path)
        d = f["data"]
        sx.observe("n", d["voltage"].shape[0])
        e = (tot // 10_000) * 10_000
        for name, old in (("time", t), ("voltage", v), ("current", c)):
            sx.check(f"length of {name}", d[name].shape[0] == e)
            sx.forall(f"{name} unchanged", sx.fmin(e, n), lambda k: sx.at(d[name], k) == sx.at(old, k))
        f.close()
    else:
        finish(sx, path, (tot // 10_000) * 10_000, t, v, c)


def same_stamps(sx):
    """no rate can be derived from the stamps -> default rate"""
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 0, N)
    t = iso_time(sx, n, sx.int("t0", 0, 2**61), 0)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    recording(sx, path, t, v, c)
    with Writer(path, modify_existing=True, verbose=None):
        pass
    finish(sx, path, (n // 10_000) * 10_000, t, v, c)


def other_rate(sx, dt):
    from shepherd_core import Writer
    path = sx.tmpdir() / "a.h5"
    n = sx.int("n", 2, N)
    t = iso_time(sx, n, sx.int("t0", 0, 2**60), dt)
    v = sx.vec("v", n, 0, 2**32 - 1)
    c = sx.vec("c", n, 0, 2**32 - 1)
    recording(sx, path, t, v, c)
    with Writer(path, modify_existing=True, verbose=None) as w:
        _ = dsets(w)
    finish(sx, path, n, t, v, c)
