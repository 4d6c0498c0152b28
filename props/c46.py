"""C46 the comparison of device inventories warns about exactly the odd ones"""
BOUNDS = ("lists of 1..4 devices with arbitrary uptimes 1 s..1000 days and creation times within +-1 day at 1 us, every package version one of "
          "three or missing per device, any further inventory content (interfaces, file systems, targets)")
OUTSIDE = "collection of the values from the operating system; texts of the warnings; more devices"
STUBS = ["pydantic -> symbolic validation"]
MODULES = ("shepherd_core.inventory",)
TIME = True
PKG = ["h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"]


def cases(tier):
    out = [(f"times/{n}", "times", {"n": n}) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    out += [(f"version/{k}/{n}", "version", {"key": k, "n": n}) for k in PKG for n in ((2, 3) if tier == "quick" else (1, 2, 3, 4))]
    out += [("equal", "equal", {}), ("several", "several", {})]
    return out


def device(sx, k, uptime=100, created=None, **kw):
    from shepherd_core.inventory import Inventory
    created = created or sx.now()
    d = {"hostname": f"sheep{k}", "created": created, "uptime": uptime, "timestamp": created, "system": "Linux", "release": "6.1",
         "version": f"#{k}", "machine": "arm", "processor": "", "interfaces": {"eth0": ("10.0.0.1", f"aa:{k}")}, "fs_root": ["a", "b"],
         "beagle": [], "targets": [f"t{k}"], **{p: "1.0" for p in PKG}, **kw}
    return Inventory(**{k: v for k, v in d.items() if v is not None})


def warnings(devs):
    from shepherd_core.inventory import InventoryList
    return InventoryList(elements=devs).warn()


def names(text, devs):
    """devices a warning talks about"""
    return {d.hostname for d in devs if d.hostname in str(text)}


def times(sx, n):
    ups = [sx.int(f"up{k}", 1, 86_400_000) for k in range(n)]
    late = [sx.int(f"late{k}", -86_400_000, 86_400_000) for k in range(n)]
    base = sx.now()
    devs = [device(sx, k, uptime=ups[k], created=shift(sx, base, late[k])) for k in range(n)]
    got = warnings(devs)
    long = [sx.is_true(u > 30 * 3600) for u in ups]
    first = late[0]
    for x in late[1:]:
        first = sx.fmin(first, x)
    off = [sx.is_true(x - first > 10_000) for x in late]
    sx.check("long uptime is reported", ("uptime" in got) == any(long))
    sx.check("late device is reported", ("time_delta" in got) == any(off))
    for key, bad in (("uptime", long), ("time_delta", off)):
        if key in got and any(bad):
            who = names(got[key], devs)
            sx.check(f"names a device concerned ({key})", who and who <= {f"sheep{k}" for k in range(n) if bad[k]})
    sx.check("nothing else", set(got) <= {"uptime", "time_delta"})
    sx.observe("keys", sorted(got))


def shift(sx, base, ms):
    if sx.sym:
        from symx.symtime import TDShim
        return base + TDShim(milliseconds=ms)
    from datetime import timedelta
    return base + timedelta(milliseconds=ms)


def version(sx, key, n):
    vers = [sx.choice(f"v{k}", [None, "1.0", "1.0.1", "2.0"]) for k in range(n)]
    devs = [device(sx, k, **{key: vers[k]}) for k in range(n)]
    got = warnings(devs)
    have = {v for v in vers if v is not None}
    sx.check("mismatch is reported", set(got) == ({key} if len(have) > 1 else set()))
    if key in got:
        sx.check("names the devices", names(got[key], devs) == {f"sheep{k}" for k in range(n) if vers[k] is not None})
        sx.check("names the versions", all(f"'{v}'" in str(got[key]) or v in str(got[key]) for v in have))


def equal(sx):
    devs = [device(sx, k, uptime=sx.int(f"up{k}", 1, 30 * 3600)) for k in range(3)]
    sx.check("no warning for equal devices", warnings(devs) == {})


def several(sx):
    a, b = sx.choice("a", PKG), sx.choice("b", PKG)
    devs = [device(sx, 0), device(sx, 1, **{a: "0.9"}), device(sx, 2, **{b: "0.8"})]
    sx.check("every package concerned", set(warnings(devs)) == {a, b})

