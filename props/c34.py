"""C34 command line tools fail loudly on bad files and treat files independently"""
from .common import closing, iso_time, recording

BOUNDS = ("directories of up to 3 files (one of them possibly in a sub-folder), each of them sound, with a jump in time of any "
          "size, without mode, unreadable, without data group, without a dataset, with non-numeric calibration or failing while being "
          "processed; options start, end, factor any real or missing, sample rate any int or missing")
OUTSIDE = ("parsing of the command line by click, console output, jumps between 4.9 % and 5.1 % of the nominal buffer interval, "
           "what the commands do with a single file (other properties)")
STUBS = ["h5py -> in-memory files", "the method of the Reader a batch command calls is replaced by a recorder (fault injection)"]
MODULES = ("shepherd_data", "shepherd_data.cli")

BAD = ("garbage", "nodata", "nods", "badcal")
NAMES = ("a.h5", "b.h5", "c.h5")


def cases(tier):
    out = [("validate/1", "validate", {"n": 1}), ("validate/2", "validate", {"n": 2})]
    for k in ("sound", "garbage", "nodata"):
        out.append((f"validate/3/{k}", "validate", {"n": 3, "first": k}))
    out.append(("validate/recurse", "recurse", {}))
    for cmd in ("downsample", "extract"):
        for n in (1, 2, 3):
            out.append((f"options/{cmd}/{n}", "options", {"cmd": cmd, "n": n}))
    for cmd in ("downsample", "extract", "extract_meta", "extract_uart", "extract_gpio", "plot", "multiplot"):
        out.append((f"faults/{cmd}", "faults", {"cmd": cmd}))
    out.append(("meta-items", "items", {}))
    return out


def build(sx, d, name, kind, rate=100_000, k=0):
    """file of a kind -> is it sound?"""
    p = d / name
    if kind == "garbage":
        p.write_bytes(b"garbage")
        return False
    n = 20_000
    good = True
    dt = 10**9 // rate
    gap = None
    if kind == "sound":
        nominal, tol = 100_000_000, 5_000_000
        gap = sx.int(f"gap_{k}", 0, 10**9)
        delta = abs(gap - nominal)
        sx.assume(sx.either(delta <= tol - 100_000, delta >= tol + 100_000))
        good = delta < tol
        if sx.sym:
            import z3
            from symx.arrays import SymVec
            from symx.engine import SymInt, lift

            def fn(i, g=lift(gap)[0]):
                i = z3.simplify(i)
                e = z3.If(i >= 10_000, g + (i - 10_000) * 10, i * 10_000)
                # the last stamp only serves the (concrete) statistics
                return SymInt(z3.simplify(z3.If(i == n - 1, z3.IntVal((n - 1) * 10_000), e)), 64)
            t = SymVec(n, fn, dtype="u8")
        else:
            import numpy as np
            t = np.concatenate([np.arange(10_000, dtype="u8") * 10_000, np.arange(10_000, dtype="u8") * 10 + np.uint64(gap)])
            t[-1] = (n - 1) * 10_000
    else:
        t = iso_time(sx, n, 0, dt)
    if sx.sym:
        from symx.arrays import SymVec
        v = c = SymVec(n, lambda i: 5, dtype="u4")
    else:
        import numpy as np
        v = c = np.full(n, 5, dtype="u4")
    recording(sx, p, t, v, c, mode="harvester")
    f = sx.h5_open(p, "r+")
    if kind == "sound":
        has_mode = sx.bool(f"mode_{k}")
        del f.attrs["mode"]
        sx.maybe_attr(f, "mode", "harvester", has_mode)
        good = sx.both(good, has_mode)
    if kind == "nodata":
        del f["data"]
        good = False
    if kind == "nods":
        del f["data"]["current"]
        good = False
    if kind == "badcal":
        f["data"]["voltage"].attrs["gain"] = "many"
        good = False
    f.close()
    return good


def status(sx, fn):
    """exit status of a command"""
    try:
        fn()
    except SystemExit as x:
        c = x.code
        return 0 if c is None else c
    return 0


def validate(sx, n, first=None):
    from shepherd_data import cli
    d = sx.tmpdir()
    good = True
    for k in range(n):
        if k == 0 and first:
            kind = first
        else:
            kind = sx.choice(f"kind_{k}", ["sound", *BAD] if n < 3 else ["sound", "garbage", "nodata"])
        good = sx.both(good, build(sx, d, NAMES[k], kind, k=k))
    code = status(sx, lambda: cli.validate.callback(str(d), recurse=False))
    sx.check("exit status tells the verdict", sx.iff(code != 0, sx.neg(good)))
    sx.observe("code", int(code != 0))


def recurse(sx):
    """sub-folders count exactly when asked for, single files on their own"""
    from shepherd_data import cli
    d = sx.tmpdir()
    sub = d / "sub"
    sub.mkdir()
    top = build(sx, d, "a.h5", sx.choice("top", ["sound", "garbage"]), k=0)
    low = build(sx, sub, "b.h5", sx.choice("low", ["sound", "nodata"]), k=1)
    (d / "c.txt").write_text("no recording")
    how = sx.choice("how", ["flat", "recurse", "file", "other"])
    if how == "file":
        code, good = status(sx, lambda: cli.validate.callback(str(sub / "b.h5"), recurse=False)), low
    elif how == "other":
        code, good = status(sx, lambda: cli.validate.callback(str(d / "c.txt"), recurse=True)), True
    else:
        code = status(sx, lambda: cli.validate.callback(str(d), recurse=how == "recurse"))
        good = top if how == "flat" else sx.both(top, low)
    sx.check("exit status tells the verdict", sx.iff(code != 0, sx.neg(good)))
    sx.observe("code", int(code != 0))


class Recorder:
    """replaces methods of the Reader for the time of a call"""

    def __init__(self, **methods):
        from shepherd_data import Reader
        self.cls, self.methods, self.log, self.old = Reader, methods, [], {}

    def __enter__(self):
        for name, hook in self.methods.items():
            self.old[name] = self.cls.__dict__.get(name)

            def method(rd, *a, _n=name, _h=hook, **k):
                # groups are only known as long as the file is open
                a, k = [getattr(x, "name", x) for x in a], {n: getattr(x, "name", x) for n, x in k.items()}
                self.log.append((_n, rd.file_path.name, a, k))
                return _h(rd)
            setattr(self.cls, name, method)
        return self

    def __exit__(self, *_a):
        for name, fn in self.old.items():
            if fn is None:
                delattr(self.cls, name)
            else:
                setattr(self.cls, name, fn)

    def of(self, name):
        return [(f, a, k) for n, f, a, k in self.log if n == name]


def args_of(a, k, names):
    r = dict(zip(names, a))
    r.update(k)
    return r


def options(sx, cmd, n):
    from shepherd_data import cli
    d = sx.tmpdir()
    rates = {}
    for j in range(n):
        rates[NAMES[j]] = sx.choice(f"rate_{j}", [100_000, 1000])
        build(sx, d, NAMES[j], "fixed", rates[NAMES[j]], k=j)
    start = sx.real("start", -10, 1000) if sx.flag("has_start") else None
    end = sx.real("end", -10, 1000) if sx.flag("has_end") else None
    if cmd == "extract":
        f = sx.real("factor", -10, 10**7)
        raw, sep = sx.choice("raw", [True, False]), sx.choice("sep", [";", ","])
        with Recorder(cut_and_downsample_to_file=lambda rd: rd.file_path, save_csv=lambda rd: 1) as rec:
            cli.extract.callback(str(d), start, end, f, sep, raw=raw, recurse=False)
        fs = [sx.ite(f >= 1, f, 1000)]
        csv = {x[0]: x for x in rec.of("save_csv")}
        sx.check("every file is exported", sorted(csv) == sorted(rates))
        for name, a, k in csv.values():
            got = args_of(a, k, ("h5_group", "separator", "raw"))
            sx.check("export options", got["separator"] == sep and got["raw"] == raw)
            sx.check("exported group", got["h5_group"].strip("/") == "data")
    else:
        f = sx.real("factor", -10, 10**7) if sx.flag("has_factor") else None
        rate = sx.int("rate", -5, 10**6) if sx.flag("has_rate") else None
        with Recorder(cut_and_downsample_to_file=lambda rd: rd.file_path) as rec:
            cli.downsample.callback(str(d), f, rate, start, end, recurse=False)
    calls = rec.of("cut_and_downsample_to_file")
    sx.check("every file is processed", {c[0] for c in calls} == set(rates))
    for name in rates:
        mine = [args_of(a, k, ("start_s", "end_s", "ds_factor")) for g, a, k in calls if g == name]
        if cmd == "extract":
            want = fs
        else:
            want = None
            if f is not None:
                if sx.is_true(f >= 1):
                    want = [f]
            elif rate is not None and sx.is_true(rate >= 1):
                if sx.is_true(rate <= rates[name]):
                    want = [rates[name] / rate]
        if want is not None:
            sx.check("one result per file", len(mine) == 1)
            if mine:
                sx.check_close("factor of the file", mine[0]["ds_factor"], want[0], 1e-9 * want[0])
        else:
            sx.check("a series of factors", len(mine) > 1 and all(m["ds_factor"] >= 1 for m in mine))
            if name != NAMES[0]:
                ref = [args_of(a, k, ("start_s", "end_s", "ds_factor"))["ds_factor"] for g, a, k in calls if g == NAMES[0]]
                if len(ref) > 1:
                    sx.check("same series for every file", [m["ds_factor"] for m in mine] == ref)
        for m in mine:
            for given, got in ((start, m["start_s"]), (end, m["end_s"])):
                if given is None:
                    sx.check("missing limit is passed on", got is None)
                else:
                    sx.check("limit is passed on", got is not None)
                    if got is not None:
                        sx.check_close("limit", got, given, 1e-9)
    sx.observe("n", len(calls))


def faults(sx, cmd):
    """whatever is wrong with one file, the others are processed"""
    from shepherd_data import cli
    import numpy as np
    d = sx.tmpdir()
    kinds = {}
    for j in range(3):
        kinds[NAMES[j]] = sx.choice(f"kind_{j}", ["fixed", "garbage", "nodata", "badcal", "ValueError", "KeyError", "OSError", "TypeError", "nothing"])
        if sum(k != "fixed" for k in kinds.values()) > 1 and kinds[NAMES[j]] != "fixed":
            sx.assume(False)
        build(sx, d, NAMES[j], kinds[NAMES[j]] if kinds[NAMES[j]] in ("garbage", "nodata", "badcal") else "fixed", k=j)
    errs = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "TypeError": TypeError}

    def fault(rd, r):
        k = kinds[rd.file_path.name]
        if k in errs:
            raise errs[k]("file is damaged")
        if k == "nothing" and cmd in ("multiplot", "extract_uart"):
            return None  # nothing to plot or decode in this file
        return r
    main = {"downsample": "cut_and_downsample_to_file", "extract": "cut_and_downsample_to_file", "extract_meta": "save_metadata",
            "extract_uart": "gpio_to_uart", "extract_gpio": "gpio_to_waveforms", "plot": "plot_to_file",
            "multiplot": "generate_plot_data"}[cmd]
    ret = {"cut_and_downsample_to_file": lambda rd: rd.file_path, "save_metadata": lambda rd: None,
           "gpio_to_uart": lambda rd: [(1.0, "hello")], "gpio_to_waveforms": lambda rd: {"pin": np.zeros((1, 2))},
           "plot_to_file": lambda rd: None, "generate_plot_data": lambda rd: {"start_s": 0, "end_s": 1, "name": rd.file_path.name}}[main]
    hooks = {main: lambda rd: fault(rd, ret(rd))}
    if cmd == "extract":
        hooks["save_csv"] = lambda rd: 1
    if cmd == "extract_gpio":
        hooks["waveform_to_csv"] = lambda rd: None
    plotted = []
    from shepherd_data import Reader
    old = Reader.multiplot_to_file
    Reader.multiplot_to_file = staticmethod(lambda data, *a, **k: plotted.extend(x["name"] for x in data))
    try:
        with Recorder(**hooks) as rec:
            calls = {
                "downsample": lambda: cli.downsample.callback(str(d), 10.0, None, None, None, recurse=False),
                "extract": lambda: cli.extract.callback(str(d), None, None, 10.0, ";", raw=False, recurse=False),
                "extract_meta": lambda: cli.extract_meta.callback(str(d), ";", recurse=False),
                "extract_uart": lambda: cli.extract_uart.callback(str(d), recurse=False),
                "extract_gpio": lambda: cli.extract_gpio.callback(str(d), ";", recurse=False),
                "plot": lambda: cli.plot.callback(str(d), None, None, 10, 5, multiplot=False, only_power=False, recurse=False),
                "multiplot": lambda: cli.plot.callback(str(d), None, None, 10, 5, multiplot=True, only_power=False, recurse=False),
            }
            try:
                calls[cmd]()
                ended = True
            except (ValueError, KeyError, OSError, TypeError):
                ended = False
    finally:
        Reader.multiplot_to_file = old
    sx.check("command goes on after a bad file", ended)
    seen = [c[0] for c in rec.of(main)]
    fine = [n for n, k in kinds.items() if k == "fixed" or (k == "nothing" and cmd not in ("multiplot", "extract_uart"))]
    sx.check("all sound files are processed", all(n in seen for n in fine))
    sx.check("every file once", len(set(seen)) == len(seen))
    last = {"extract": "save_csv", "extract_gpio": "waveform_to_csv"}.get(cmd)
    if last:
        sx.check("results of sound files", sorted(c[0] for c in rec.of(last)) == fine)
    if cmd == "extract_uart":
        sx.check("results of sound files", sorted(p.name for p in d.glob("*.log")) == [n[0] + ".uart_from_wf.log" for n in fine])
    if cmd == "multiplot":
        sx.check("results of sound files", sorted(plotted) == fine)
    sx.observe("n", len(fine))


def items(sx):
    """all logs and monitors a file has are exported, whatever the other file has"""
    from shepherd_data import cli
    d = sx.tmpdir()
    want = []
    csvs, logs = ("ptp", "sys_util", "pru_util"), ("sheep", "kernel", "phc2sys", "uart")
    for j in range(2):
        build(sx, d, NAMES[j], "fixed", k=j)
        f = sx.h5_open(d / NAMES[j], "r+")
        for g in csvs + logs:
            if (j == 0 and g in ("ptp", "kernel", "uart")) or (j == 1 and g in ("sys_util", "uart")):
                if sx.flag(f"{g}_{j}"):
                    f.create_group(g)
                    want.append((NAMES[j], g))
            elif j == 0:
                f.create_group(g)
                want.append((NAMES[j], g))
        f.close()
    sep = sx.choice("sep", [";", ","])
    with Recorder(save_metadata=lambda rd: None, save_csv=lambda rd: 1, save_log=lambda rd: 1,
                  warn_logs=lambda rd: 0) as rec:
        cli.extract_meta.callback(str(d), sep, recurse=False)
    got = [(f, a[0].strip("/") if a else k["h5_group"].strip("/")) for f, a, k in rec.of("save_csv") + rec.of("save_log")]
    sx.check("exactly what is there is exported", sorted(got) == sorted(want))
    for f, a, k in rec.of("save_csv"):
        sx.check("separator", args_of(a, k, ("h5_group", "separator")).get("separator") == sep)
    sx.check("metadata of every file", sorted(c[0] for c in rec.of("save_metadata")) == [NAMES[0], NAMES[1]])
    sx.observe("n", len(got))
