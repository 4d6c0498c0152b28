"""C43 exported metadata mirrors the structure and attributes of the file"""
from .common import closing, iso_time, recording

import os

BOUNDS = ("files with root, data, further group, nested group and datasets of integers, floats and text; up to 4 attributes each, present "
          "or not; arbitrary integers (-2^63..2^63-1), arbitrary floats, lists of numbers, 16 kinds of text (yaml, broken yaml, impossible dates, "
          "empty, numbers, nested configurations); any starting node; minimal or full; existing exports")
OUTSIDE = "YAML library (parsing and printing of plain data), statistics and energy themselves (C10), validity itself (C09)"
STUBS = ["h5py -> in-memory files (replays: real HDF5)", "YAML: text of symbolic numbers is a token that parses to the number"]
MODULES = ("shepherd_data",)
YAML = True
TEXTS = ["plain", "", "a: 1\nb: [1, 2]\n", "[1, 2", "key: value: other", "2025-02-30", "2025-02-28", "12", "1e3", "true", "null", "- x\n- y: {z: 0.5}\n",
         "%bad", "'quoted'", "0x1F", "!unknown tag"]
LISTS = [[1, 2, 3], [0.5], [1.5, -2.0]]


def cases(tier):
    out = [(f"attr/{where}/{kind}/{'min' if m else 'full'}", "attr", {"where": where, "kind": kind, "minimal": m})
           for where in ("root", "data", "voltage", "time", "group", "nested", "dataset")
           for kind in ("int", "float", "text", "list") for m in (True, False)
           if tier != "quick" or m or where in ("root", "voltage", "dataset")]
    out += [(f"tree/{m}", "tree", {"minimal": m}) for m in (True, False)]
    out += [(f"node/{n}", "node", {"node": n}) for n in ("data", "voltage", "extra", "nested")]
    out += [(f"info/{n}", "info", {"n": n}) for n in (10_000, 30_000)]
    out += [("save/new", "save", {"old": False}), ("save/existing", "save", {"old": True}), ("save/existing-node", "save", {"old": True, "node": True}), ("save/node", "save_node", {})]
    return out


def loaded(text):
    import yaml
    try:
        return yaml.safe_load(text)
    except Exception:  # noqa: BLE001
        return text


def base(sx, path, n=10_000):
    if sx.sym:
        from symx.arrays import SymVec
        v = SymVec(n, lambda i: 1_000_000, dtype="u4")
    else:
        import numpy as np
        v = np.full(n, 1_000_000, dtype="u4")
    recording(sx, path, iso_time(sx, n, 0, 10_000), v, v)
    f = sx.h5_open(path, "r+")
    g = f.create_group("extra")
    g.create_group("deep")
    g.create_dataset("value", data=[1.5, 2.5], dtype="f8")
    g["deep"].create_dataset("signed", data=[-3, 5], dtype="i4")
    g["deep"].create_dataset("small", data=[7, 9], dtype="u1")
    f.close()
    return path


def at_place(f, where):
    return {"root": f, "data": f["data"], "voltage": f["data"]["voltage"], "time": f["data"]["time"], "group": f["extra"],
            "nested": f["extra"]["deep"], "dataset": f["extra"]["value"]}[where]


def place(meta, where):
    keys = {"root": (), "data": ("data",), "voltage": ("data", "voltage"), "time": ("data", "time"), "group": ("extra",),
            "nested": ("extra", "deep"), "dataset": ("extra", "value")}[where]
    for k in keys:
        if not isinstance(meta, dict) or k not in meta:
            return None
        meta = meta[k]
    return meta


def same(a, b):
    """equality of plain data, types included"""
    if isinstance(b, bool) or b is None or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    return a == b


def value(sx, kind):
    if kind == "int":
        return sx.int("value", -2**63, 2**63 - 1)
    if kind == "float":
        return sx.real("value", -1e6, 1e6)
    if kind == "text":
        return sx.choice("text", TEXTS)
    return sx.choice("list", LISTS)


def attr(sx, where, kind, minimal):
    from shepherd_core import Reader
    p = base(sx, sx.tmpdir() / "rec.h5")
    f = sx.h5_open(p, "r+")
    val = value(sx, kind)
    node = at_place(f, where)
    node.attrs["first"] = "x"
    node.attrs["special"] = val
    node.attrs["zlast"] = 7
    f.close()
    with closing(Reader(p, verbose=None)) as rd:
        meta = rd.get_metadata(minimal=minimal)
    got = place(meta, where)
    sx.check("node is listed", isinstance(got, dict))
    if not isinstance(got, dict):
        return
    sx.check("neighbours are kept", got.get("first") == "x" and got.get("zlast") == 7)
    sx.check("attribute is listed", "special" in got)
    if "special" not in got:
        return
    got = got["special"]
    if kind == "text":
        sx.check("text is parsed or kept", same(got, loaded(val)))
    elif kind == "list":
        sx.check("list is kept", same(list(got), val))
    else:
        sx.check_eq("value is kept", got, val)
        if not sx.sym:
            sx.check("plain type", type(got) is (int if kind == "int" else float))
    sx.observe("value", str(got) if kind in ("text", "list") else got)


def tree(sx, minimal):
    """every node and attribute, nothing else"""
    from shepherd_core import Reader
    p = base(sx, sx.tmpdir() / "rec.h5")
    f = sx.h5_open(p, "r+")
    want = {}
    for i, where in enumerate(("root", "extra", "deep", "value")):
        node = at_place(f, {"extra": "group", "deep": "nested", "value": "dataset"}.get(where, where))
        want[where] = {}
        if sx.flag(f"has{i}"):
            for j in range(2):
                want[where][f"own{i}{j}"] = x = sx.int(f"x{i}{j}", 0, 2**31)
                node.attrs[f"own{i}{j}"] = x
    more = sx.flag("more")
    if more:
        f["extra"]["deep"].create_group("deeper").attrs["level"] = 3
    f.close()
    with closing(Reader(p, verbose=None)) as rd:
        meta = rd.get_metadata(minimal=minimal)
    sx.check("root", set(meta) == {"mode", "hostname", "data", "extra", *want["root"]})
    sx.check("data", set(meta["data"]) - {"_group_info"} == {"datatype", "window_samples", "time", "voltage", "current"})
    sx.check("dataset of the recording", {"gain", "offset", "unit"} <= set(meta["data"]["voltage"]))
    ext = meta["extra"]
    sx.check("group", set(ext) == {"deep", "value", *want["extra"]})
    sx.check("nested group", set(ext["deep"]) == ({"deeper"} if more else set()) | {"signed", "small"} | set(want["deep"]))
    if more and "deeper" in ext["deep"]:
        sx.check("deeply nested", ext["deep"]["deeper"] == {"level": 3})
    sx.check("dataset", set(ext["value"]) - {"_dataset_info"} == set(want["value"]))
    infos = ["_group_info" in meta["data"], *["_dataset_info" in meta["data"][k] for k in ("time", "voltage", "current")], "_dataset_info" in ext["value"]]
    sx.check("computed information only on request", infos == [not minimal] * 5)
    for where, got in (("root", meta), ("extra", ext), ("deep", ext["deep"]), ("value", ext["value"])):
        for k, x in want[where].items():
            if k in got:
                sx.check_eq("attribute of its own node", got[k], x)


def node(sx, node):
    from shepherd_core import Reader
    p = base(sx, sx.tmpdir() / "rec.h5")
    f = sx.h5_open(p, "r+")
    x = sx.int("x", 0, 2**31)
    at_place(f, {"extra": "group"}.get(node, node)).attrs["mark"] = x
    f.close()
    with closing(Reader(p, verbose=None)) as rd:
        part = rd.get_metadata(at_place(rd.h5file, {"extra": "group"}.get(node, node)), minimal=True)
        whole = place(rd.get_metadata(minimal=True), {"extra": "group"}.get(node, node))
    sx.check("same keys as in the whole file", list(part) == list(whole))
    sx.check_eq("mark", part.get("mark"), x)


def info(sx, n):
    """computed parts agree with the reader's own answers"""
    from shepherd_core import Reader
    p = base(sx, sx.tmpdir() / "rec.h5", n)
    broken = sx.flag("broken")
    f = sx.h5_open(p, "r+")
    if broken:
        f["data"].attrs["datatype"] = "nonsense"
    f.close()
    with closing(Reader(p, verbose=None)) as rd:
        meta = rd.get_metadata()
        grp = meta["data"]["_group_info"]
        sx.check_close("energy", grp["energy_Ws"], rd.energy(), 1e-12)
        sx.check("validity", bool(grp["valid"]) == bool(rd.is_valid()))
        sx.check_close("runtime", grp["runtime_s"], n / 100_000, 0.051)
        size = os.stat(p).st_size
        sx.check("file size", abs(grp["file_size_MiB"] - size / 2**20) < 6e-4)
        sx.check("data rate", abs(grp["data_rate_KiB_s"] - (size / 1024 / rd.runtime_s if rd.runtime_s > 0 else 0)) < 0.51)
        for k, gain in (("voltage", 3e-9), ("current", 250e-12)):
            st = meta["data"][k]["_dataset_info"]
            sx.check(f"shape of {k}", st["shape"] == f"({n},)" and st["datatype"] == "uint32")
            for s in ("min", "max", "mean"):
                sx.check_close(f"{s} of {k}", st["statistics"][s], gain * 1_000_000, 1e-12)
        tm = meta["data"]["time"]["_dataset_info"]
        sx.check("time has steps instead of statistics", "statistics" not in tm and "time_diffs_s" in tm)
        if n > 10_000:
            sx.check("steps", len(tm["time_diffs_s"]) == 1)
            sx.check_close("step", tm["time_diffs_s"][0], 1e-5, 1e-9)
        for k, lo, hi in (("signed", -3, 5), ("small", 7, 9)):
            st = meta["extra"]["deep"][k]["_dataset_info"].get("statistics", {})
            sx.check(f"statistics of {k} integers", (st.get("min"), st.get("max")) == (lo, hi))
            sx.check("which are not converted", not st.get("si_converted", True))
        sx.check("only integers get statistics", "statistics" not in meta["extra"]["value"]["_dataset_info"])


def reload(sx, text):
    if sx.sym:
        from symx.yamlsim import Yaml
        return Yaml().safe_load(text)
    import yaml
    return yaml.safe_load(text)


def save(sx, old, node=False):
    from shepherd_core import Reader
    d = sx.tmpdir()
    p = base(sx, d / sx.choice("name", ["rec.h5", "rec.v1.h5"]))
    f = sx.h5_open(p, "r+")
    x, y = sx.int("x", -2**31, 2**31), sx.real("y", -1e3, 1e3)
    f.attrs["x"] = x
    f["extra"].attrs["y"] = y
    f.attrs["cfg"] = "a: {b: [1, 2.5]}\n"
    f.close()
    target = p.with_suffix(".yaml")
    if old:
        target.write_bytes(b"precious: 1\n")
    before = set(d.iterdir())
    with closing(Reader(p, verbose=None)) as rd:
        ret = rd.save_metadata(rd.h5file["data"]) if node else rd.save_metadata()
    new = set(d.iterdir()) - before
    if old:
        sx.check("existing export is kept", target.read_bytes() == b"precious: 1\n")
        sx.check("nothing new", not new)
        return
    sx.check("one file next to the recording", new == {target})
    if new != {target}:
        return
    back = reload(sx, target.read_text(encoding="utf-8-sig"))
    sx.check("same structure", list(back) == list(ret))
    sx.check_eq("integer", back["x"], x)
    sx.check_close("float", back["extra"]["y"], y, 1e-12)
    sx.check("parsed config", back["cfg"] == {"a": {"b": [1, 2.5]}})
    sx.check_eq("returned integer", ret["x"], x)
    sx.check("complete", {"voltage", "current", "time", "_group_info"} <= set(back["data"]) and "deep" in back["extra"])


def save_node(sx):
    from shepherd_core import Reader
    d = sx.tmpdir()
    p = base(sx, d / "rec.h5")
    f = sx.h5_open(p, "r+")
    x = sx.int("x", -2**31, 2**31)
    f["extra"].attrs["x"] = x
    f.close()
    with closing(Reader(p, verbose=None)) as rd:
        rd.save_metadata(rd.h5file["extra"])
    back = reload(sx, p.with_suffix(".yaml").read_text(encoding="utf-8-sig"))
    sx.check("only that node", set(back) == {"x", "deep", "value"})
    sx.check_eq("attribute", back.get("x"), x)
