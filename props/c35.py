"""C35 CSV and log exports contain every record, converted as documented"""
from .common import closing, iso_time, recording

BOUNDS = ("groups with a time base and 1..3 further datasets (one of them with 1..3 columns, optionally a sub-group between them), 0..4 "
          "(thorough 7) records, arbitrary u4/f8 values, arbitrary time stamps up to 2^61 ns, gain and offset present or not, "
          "separators ; , | and with blanks; logs of 0..4 records, warnings among up to 3 (thorough 4); waveforms of up to 4 edges")
OUTSIDE = ("formatting of a number or an instant as text (digits), time zone rules, encoding of the file, datasets of one group with "
           "different lengths")
STUBS = ["h5py -> in-memory files", "text of a symbolic number/instant -> token that is decoded on reading"]
MODULES = ("shepherd_data", "shepherd_data.cli")
TIME = True
FMT = "%Y-%m-%d %H:%M:%S.%f"
SEP = [";", ",", "|", " ; ", ";;"]


def cases(tier):
    n = 4 if tier == "quick" else 7
    out = []
    for lay in ("one", "order", "columns", "subgroup"):
        for raw in (False, True):
            out.append((f"csv/{lay}/{'raw' if raw else 'si'}", "csv", {"layout": lay, "raw": raw, "top": n if lay == "one" else 3}))
    out += [("csv/data", "csv_data", {}), ("csv/empty", "empty", {"what": "csv"}), ("csv/existing", "existing", {"what": "csv"}),
            ("log/empty", "empty", {"what": "log"}), ("log/existing", "existing", {"what": "log"})]
    for lay in ("plain", "level", "subgroup"):
        out.append((f"log/{lay}", "log", {"layout": lay, "top": n}))
    out += [(f"warn/{n}", "warn", {"n": n}) for n in range(4 if tier == "quick" else 5)]
    out += [("warn/missing", "warn_missing", {})]
    out += [(f"wave/{n}", "wave", {"n": n}) for n in range(5)]
    return out


def number(txt):
    """number behind a text"""
    txt = txt.strip()
    if txt.startswith("sym"):
        from symx.engine import PH_VALUES
        return PH_VALUES[txt]
    return float(txt)


def instant_us(sx, txt):
    """microseconds since epoch (of the local wall clock's time zone) behind a text, None if it has another form"""
    txt = txt.strip()
    if sx.sym and txt.startswith("dtsym"):
        tok, fmt = txt[2:].rsplit("-", 1)
        if int(fmt) != abs(hash(FMT)) % 9973:
            return None
        from symx.engine import PH_VALUES
        return PH_VALUES[tok]
    from datetime import datetime, timedelta, timezone
    try:
        t = datetime.strptime(txt, FMT)
    except ValueError:
        return None
    from shepherd_core import local_tz
    return (t.replace(tzinfo=local_tz()) - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(microseconds=1)


def base(sx, d):
    p = d / "rec.h5"
    if sx.sym:
        from symx.arrays import SymVec
        v = SymVec(10_000, lambda i: 5, dtype="u4")
    else:
        import numpy as np
        v = np.full(10_000, 5, dtype="u4")
    recording(sx, p, iso_time(sx, 10_000, 0, 10_000), v, v)
    return p


def maybe(sx, ds, name, opts):
    """attribute that is there or not -> value in effect or None"""
    v = sx.choice(f"{ds.name.split('/')[-1]}_{name}", [None, *opts])
    if v is not None:
        ds.attrs[name] = v
    return v


def times(sx, n):
    return sx.vec("t", n, 0, 2**61, dtype="u8")


def csv(sx, layout, raw, top):
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    n = sx.int("n", 1, top)
    f = sx.h5_open(p, "r+")
    g = f.create_group("mon")
    t = times(sx, n)
    ts = g.create_dataset("time", data=t, dtype="u8")
    ts.attrs["description"] = "system time [s]"
    tg = maybe(sx, ts, "gain", [1e-9, 1e-6] if layout == "one" else [1e-6])
    tg = 1e-9 if tg is None else tg
    cols = []
    names = {"one": ["value"], "order": ["zeta", "alpha", "unit"], "columns": ["both", "val"], "subgroup": ["aa", "zz"]}[layout]
    if layout in ("columns",):
        k = sx.choice("count", [1, 2])
        w = sx.choice("width", [1, 2, 3])
        sx.assume(n == k)
    for name in sorted(names):
        if name == "both":
            rows = [[sx.int(f"m{i}_{j}", 0, 2**32 - 1) for j in range(w)] for i in range(k)]
            if sx.sym:
                ds = g.create_dataset(name, data=sx.matrix(rows), dtype="f8")
            else:
                import numpy as np
                ds = g.create_dataset(name, data=np.array(rows, dtype="f8"))
            ds.attrs["description"] = ", ".join(f"col{j}" for j in range(w))
            vals = [rows]
        else:
            v = sx.vec(name, n, 0, 2**32 - 1)
            ds = g.create_dataset(name, data=v, dtype="u4")
            ds.attrs["description"] = f"{name} [x] = value * gain"
            vals = v
        opts = ([3e-9, 1.0], [0.0, -0.5]) if layout == "one" else ([2.5], [100.0])
        cols.append((name, vals, maybe(sx, ds, "gain", opts[0]), maybe(sx, ds, "offset", opts[1])))
    if layout == "subgroup":
        g.create_group("middle")
    f.close()
    sep = sx.choice("sep", SEP if layout == "one" else SEP[:1])
    s = sep.strip()
    with closing(Reader(p, verbose=None)) as r:
        cnt = r.save_csv(r.h5file["mon"], sep, raw=raw)
    out = p.with_suffix(".mon.csv")
    sx.check("file is created", out.exists())
    lines = out.read_text(encoding="utf-8-sig").split("\n")
    sx.check("ends with a line feed", lines[-1] == "")
    head, rows = lines[0], lines[1:-1]
    sx.check_eq("one row per record", len(rows), n)
    sx.check_eq("reported number", cnt, n)
    want_head = ["system time [s]"]
    for name, vals, _g, _o in cols:
        want_head += [f"col{j}" for j in range(w)] if name == "both" else [f"{name} [x] = value * gain"]
    sx.check("header", [h.strip() for h in head.split(s)] == want_head)
    for i, row in enumerate(rows):
        cell = row.split(s)
        sx.check("columns of a row", len(cell) == len(want_head))
        if len(cell) != len(want_head):
            continue
        us = instant_us(sx, cell[0])
        sx.check("form of the time stamp", us is not None)
        if us is not None:
            sx.check_close("time stamp", us, sx.at(t, i) * (tg * 1e6), 2 + abs(us) * 1e-15)
        j = 1
        for name, vals, gain, off in cols:
            for x in (vals[0][i] if name == "both" else [sx.at(vals, i)]):
                y = x
                if not raw:
                    y = x * (1.0 if gain is None else gain) + (0.0 if off is None else off)
                sx.check_close(f"value of {name}", number(cell[j]), y, 1e-9 * (abs(y) + 1e-3))
                j += 1
    sx.observe("rows", len(rows))


def csv_data(sx):
    """the regular data of a recording"""
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = d / "rec.h5"
    n = sx.int("n", 3, 3)
    t = iso_time(sx, n, sx.int("t0", 10**18, 2 * 10**18), 10_000)
    v, c = sx.vec("v", n, 0, 2**32 - 1), sx.vec("c", n, 0, 2**32 - 1)
    cal = {"voltage": (3e-9, -0.25), "current": (2.5e-10, 1e-6)}
    recording(sx, p, t, v, c, cal=cal)
    f = sx.h5_open(p, "r+")
    for k in ("time", "voltage", "current"):
        f["data"][k].attrs["description"] = k
    f.close()
    raw = sx.flag("raw")
    with closing(Reader(p, verbose=None)) as r:
        cnt = r.save_csv(r["data"], raw=raw)
    lines = p.with_suffix(".data.csv").read_text(encoding="utf-8-sig").split("\n")
    sx.check("lines", len(lines) == 5 and cnt == 3)
    sx.check("header", [x.strip() for x in lines[0].split(";")] == ["time", "current", "voltage"])
    for i, row in enumerate(lines[1:4]):
        cell = row.split(";")
        us = instant_us(sx, cell[0])
        sx.check("form of the time stamp", us is not None)
        if us is not None:
            sx.check_close("time stamp", us, sx.at(t, i) / 1000, 2)
        for name, x, y in (("current", cell[1], sx.at(c, i)), ("voltage", cell[2], sx.at(v, i))):
            if not raw:
                y = y * cal[name][0] + cal[name][1]
            sx.check_close(f"value of {name}", number(x), y, 1e-9 * (abs(y) + 1e-3))
    sx.observe("cnt", cnt)


def empty(sx, what):
    """groups without records or time base produce nothing"""
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    f = sx.h5_open(p, "r+")
    g = f.create_group("mon")
    n = sx.int("n", 0, 2)
    has = sx.flag("has_time")
    if has:
        g.create_dataset("time", data=times(sx, n), dtype="u8").attrs["description"] = "t"
    v = g.create_dataset("value", data=sx.vec("x", n, 0, 9), dtype="u4")
    v.attrs["description"] = "v"
    f.close()
    with closing(Reader(p, verbose=None)) as r:
        cnt = (r.save_csv if what == "csv" else r.save_log)(r.h5file["mon"])
    there = p.with_suffix(f".mon.{what}").exists()
    some = has and sx.is_true(n > 0)
    sx.check("file only for records", there == some)
    sx.check_eq("reported number", cnt, n if some else 0)
    sx.check("nothing else", {x.name for x in d.iterdir()} == ({"rec.h5", f"rec.mon.{what}"} if some else {"rec.h5"}))
    sx.observe("there", there)


def existing(sx, what):
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    f = sx.h5_open(p, "r+")
    g = f.create_group("mon")
    n = sx.int("n", 0, 2)
    g.create_dataset("time", data=times(sx, n), dtype="u8").attrs["description"] = "t"
    g.create_dataset("value", data=sx.vec("x", n, 0, 9), dtype="u4").attrs["description"] = "v"
    f.close()
    out = p.with_suffix(f".mon.{what}")
    old = sx.choice("old", ["mine", ""])
    out.write_text(old)
    with closing(Reader(p, verbose=None)) as r:
        fn = r.save_csv if what == "csv" else r.save_log
        cnt = fn(r.h5file["mon"])
    sx.check("export is not overwritten", out.read_text() == old)
    sx.check("nothing is reported", cnt == 0)
    sx.observe("cnt", cnt)


MSG = ["first, line", "x\ty", "", "Bär", "[12.3] kernel: oops; again"]


def texts(sx, g, name, items):
    if sx.sym:
        from symx import fakeh5
        from symx.arrays import SymVec
        import numpy as np
        v = SymVec.of_list([], dtype="u4")
        ds = g.create_dataset(name, data=v, dtype="u4")
        ds.vec = np.array([i.encode() for i in items] + [None], dtype=object)[:-1]
        _ = fakeh5
    else:
        import h5py
        g.create_dataset(name, data=list(items), dtype=h5py.string_dtype())


def log(sx, layout, top):
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    n = sx.choice("n", list(range(1, top + 1)))
    f = sx.h5_open(p, "r+")
    g = f.create_group("sheep")
    t = times(sx, sx.int("len", n, n))
    g.create_dataset("time", data=t, dtype="u8")
    items = [MSG[i % len(MSG)] for i in range(n)]
    texts(sx, g, "message", items)
    lev = None
    if layout != "plain":
        lev = sx.vec("level", n, 0, 50)
        g.create_dataset("level", data=lev, dtype="u1")
    tail = None
    if layout == "subgroup":
        g.create_group("more")
        tail = sx.vec("usec", n, 0, 10**6)
        g.create_dataset("usec", data=tail, dtype="u4")
    f.close()
    stamp = sx.flag("stamp")
    with closing(Reader(p, verbose=None)) as r:
        cnt = r.save_log(r.h5file["sheep"], add_timestamp=stamp)
    sx.check("reported number", cnt == n)
    lines = p.with_suffix(".sheep.log").read_text(encoding="utf-8-sig").split("\n")
    sx.check("one line per record", len(lines) == n + 1 and lines[-1] == "")
    for i, line in enumerate(lines[:n]):
        cell = line.split("\t")
        text = str(items[i].encode())
        if not any(text == c for c in cell) and not all(w in line for w in items[i].split("\t")):
            sx.check("message", False)
        if stamp:
            sx.check("time stamp ends with a colon", cell[0].endswith(":"))
            us = instant_us(sx, cell[0][:-1])
            sx.check("form of the time stamp", us is not None)
            if us is not None:
                sx.check_close("time stamp", us, sx.at(t, i) / 1000, 2 + abs(us) * 1e-15)
        else:
            sx.check("no time stamp", "dtsym" not in line and "-01-" not in line)
        if lev is not None:
            sx.check_eq("level", number(cell[1]), sx.at(lev, i))
        if tail is not None:
            sx.check_eq("last column", number(cell[-1]), sx.at(tail, i))
    sx.observe("n", n)


def warn(sx, n):
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    f = sx.h5_open(p, "r+")
    g = f.create_group("kernel")
    g.create_dataset("time", data=times(sx, sx.int("len", n, n)), dtype="u8")
    texts(sx, g, "message", [MSG[i % 5] for i in range(n)])
    ls = [sx.choice(f"l{i}", [0, 20, 30, 40]) for i in range(n)]
    if sx.sym:
        from symx.arrays import SymVec
        lev = SymVec.of_list(ls, dtype="u1")
    else:
        import numpy as np
        lev = np.array(ls, dtype="u1")
    g.create_dataset("level", data=lev, dtype="u1")
    f.close()
    low = sx.int("min_level", -5, 60)
    show = sx.flag("show")
    lim = sx.choice("limit", [1, 2, 10])
    with closing(Reader(p, verbose=None)) as r:
        got = r.warn_logs("kernel", low, lim, show=show)
    want = 0
    for x in ls:
        want = want + sx.ite(low <= x, 1, 0)
    sx.check_eq("number of messages", got, want)
    sx.observe("got", got)


def warn_missing(sx):
    from shepherd_data import Reader
    p = base(sx, sx.tmpdir())
    f = sx.h5_open(p, "r+")
    what = sx.choice("what", ["none", "no level", "empty"])
    if what != "none":
        g = f.create_group("sheep")
        g.create_dataset("time", data=times(sx, sx.int("len", 0, 0)), dtype="u8")
        if what == "empty":
            g.create_dataset("level", data=sx.vec("l", 0, 0, 9), dtype="u1")
    f.close()
    with closing(Reader(p, verbose=None)) as r:
        sx.check("nothing to warn of", r.warn_logs("sheep", sx.int("min_level", -5, 60), show=sx.flag("show")) == 0)
    sx.observe("what", what)


def wave(sx, n):
    """one row per edge: seconds and level"""
    from shepherd_data import Reader
    d = sx.tmpdir()
    p = base(sx, d)
    rows = [[sx.int(f"t{i}", 0, 2**61), sx.int(f"b{i}", 0, 1)] for i in range(n)]
    sep = sx.choice("sep", [";", ",", " | "])
    name = sx.choice("pin", ["target.uart", "gpio0"])
    if sx.sym:
        wf = sx.objects(rows, 2)
    else:
        import numpy as np
        wf = np.array(rows, dtype="u8").reshape((n, 2))
    with closing(Reader(p, verbose=None)) as r:
        r.waveform_to_csv(name, wf, sep)
        files = [x for x in d.iterdir() if x.name != "rec.h5"]
        sx.check("one file, named by the pin", len(files) == 1 and name in files[0].name)
        lines = files[0].read_text().split("\n")
        files[0].write_text("mine")
        r.waveform_to_csv(name, wf, sep)
        sx.check("export is not overwritten", files[0].read_text() == "mine")
    sx.check("one row per edge", len(lines) == n + 2 and lines[-1] == "")
    sx.check("header", [h.strip() for h in lines[0].split(sep.strip())] == ["timestamp [s]", name])
    for i, line in enumerate(lines[1:-1]):
        cell = line.split(sep.strip())
        sx.check("columns", len(cell) == 2)
        if len(cell) == 2:
            x = rows[i][0] * 1e-9
            sx.check_close("time", number(cell[0]), x, 1e-12 * (x + 1))
            sx.check_eq("level", number(cell[1]), rows[i][1])
    sx.observe("n", n)
