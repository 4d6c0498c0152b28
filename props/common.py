"""Shared builders for the recording (HDF5) harnesses."""
from __future__ import annotations

import contextlib

CAL = {"voltage": (3e-9, 0.0), "current": (250e-12, 0.0), "time": (1e-9, 0.0)}


def recording(sx, path, time, voltage, current, *, mode="harvester", datatype="ivsample",
              window=0, cal=None, hostname="unit", attrs=True, data_attrs=None, root_attrs=None):
    """write a structurally sound recording; returns nothing (file is closed)"""
    f = sx.h5(path)
    if attrs:
        f.attrs["mode"] = mode
        if hostname is not None:
            f.attrs["hostname"] = hostname
    for k, v in (root_attrs or {}).items():
        f.attrs[k] = v
    g = f.create_group("data")
    if attrs:
        g.attrs["window_samples"] = window
        g.attrs["datatype"] = datatype
    for k, v in (data_attrs or {}).items():
        g.attrs[k] = v
    cal = {**CAL, **(cal or {})}
    for name, vec, dt in (("time", time, "u8"), ("current", current, "u4"),
                          ("voltage", voltage, "u4")):
        ds = g.create_dataset(name, data=vec, dtype=dt, maxshape=(None,), chunks=(10000,))
        ds.attrs["unit"] = {"time": "s", "current": "A", "voltage": "V"}[name]
        ds.attrs["gain"] = cal[name][0]
        ds.attrs["offset"] = cal[name][1]
    f.close()


@contextlib.contextmanager
def closing(rd):
    """use a reader/writer without the side effects of its own __exit__"""
    try:
        yield rd
    finally:
        with contextlib.suppress(Exception):
            rd.h5file.close()


def dsets(rd):
    d = rd.h5file["data"]
    return d["time"], d["voltage"], d["current"]


def iso_time(sx, n, t0, dt):
    """t0 + k*dt as vector of n entries"""
    if sx.sym:
        from symx.arrays import SymVec, simp
        from symx.engine import SymInt, lift
        te, de = lift(t0)[0], lift(dt)[0]
        return SymVec(n, lambda i: SymInt(simp(te + i * de), 64), dtype="u8")
    import numpy as np
    return (np.arange(n, dtype="u8") * np.uint64(dt) + np.uint64(t0)).astype("u8")
