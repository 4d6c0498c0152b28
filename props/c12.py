"""C12 GPIO traces are turned into waveforms without losing transitions"""
from .common import closing, iso_time, recording

BOUNDS = "0..6 records for one pin, 0..2 for all pins of a description at once (thorough 8 / 3) of any u16 pin state and any u64 time stamp, 3 pins of any of the 16 bits, any name looked up"
OUTSIDE = "longer traces (the filter only looks at neighbours); yaml parsing of the pin description"
STUBS = ["h5py -> in-memory datasets", "logging disabled"]
DESC = ({0: "gpio0"}, {3: "uart", 0: "gpio0", 15: "gpio15"}, {7: "led", 1: "uart_tx", 2: "debug"})


def cases(tier):
    out = []
    big = tier != "quick"
    for n in range(9 if big else 7):
        for d in range(len(DESC)):
            out.append((f"trace/{n}/{d}/named", "trace", {"n": n, "d": d, "named": True}))
            if n <= (3 if big else 2) or (d == 0):
                out.append((f"trace/{n}/{d}/all", "trace", {"n": n, "d": d, "named": False}))
    out += [("names", "names", {}), ("no-gpio", "no_gpio", {}), ("filter", "flt", {}),
            ("filter-long", "flt_long", {})]
    return out


def with_gpio(sx, n, desc):
    path = sx.tmpdir() / "a.h5"
    recording(sx, path, iso_time(sx, 10_000, 5, 10_000), sx.vec("v", 10_000, 0, 9),
              sx.vec("c", 10_000, 0, 9))
    f = sx.h5_open(path, "r+")
    g = f.create_group("gpio")
    t = sx.array("t", n, 0, 2**63, dtype="u8")
    v = sx.array("p", n, 0, 2**16 - 1, dtype="u2")
    g.create_dataset("time", data=t, dtype="u8", maxshape=(None,), chunks=True)
    d = g.create_dataset("value", data=v, dtype="u2", maxshape=(None,), chunks=True)
    d.attrs["description"] = "".join(f"{k}:\n  name: {x}\n  tag: t{k}\n" for k, x in desc.items())
    f.close()
    return path, [sx.trunc(x) for x in t], [sx.trunc(x) for x in v]


def level(sx, v, bit):
    """pin state as 0/1"""
    return sx.floor(v / 2**bit) - 2 * sx.floor(v / 2 ** (bit + 1))


def check_wave(sx, lab, wf, t, v, bit):
    """wf must be the initial state plus every change"""
    lev = [level(sx, x, bit) for x in v]
    exp = []
    for k in range(len(t)):
        if k == 0 or sx.is_true(lev[k] != lev[k - 1]):
            exp.append((t[k], lev[k]))
    sx.check(f"{lab}: number of entries", wf.shape[0] == len(exp))
    sx.observe(f"{lab} len", wf.shape[0])
    if wf.shape[0] == len(exp):
        for k, (a, b) in enumerate(exp):
            sx.check(f"{lab}: stamp {k}", sx.trunc(wf[k, 0]) == a)
            sx.check(f"{lab}: level {k}", sx.trunc(wf[k, 1]) == b)


def trace(sx, n, d, named):
    from shepherd_core import Reader
    desc = DESC[d]
    path, t, v = with_gpio(sx, n, desc)
    rd = Reader(path, verbose=None)
    with closing(rd):
        if named:
            pin, name = sx.choice("which", list(desc.items()))
            w = rd.gpio_to_waveforms(name)
            sx.check("one waveform", len(w) == 1)
            check_wave(sx, "named", list(w.values())[0], t, v, pin)
        else:
            w = rd.gpio_to_waveforms()
            sx.check("every pin", sorted(w) == sorted(desc.values()))
            for pin, name in desc.items():
                check_wave(sx, name, w[name], t, v, pin)


def names(sx):
    from shepherd_core import Reader
    d = sx.choice("d", DESC)
    path, t, v = with_gpio(sx, 2, d)
    name = sx.choice("name", ("uart", "gpio0", "gpio15", "led", "tx", "nothing", "debug"))
    rd = Reader(path, verbose=None)
    with closing(rd):
        pin = rd.get_gpio_pin_num(name)
        fits = [k for k, x in d.items() if name in x]
        sx.check("a pin carrying the name", pin in fits if fits else pin is None)
        w = rd.gpio_to_waveforms(name)
        if fits:
            check_wave(sx, "wave", w[name], t, v, pin)
        else:
            sx.check("nothing for unknown names", sum(len(x) for x in w.values()) == 0)


def no_gpio(sx):
    from shepherd_core import Reader
    path = sx.tmpdir() / "a.h5"
    recording(sx, path, iso_time(sx, 10_000, 5, 10_000), sx.vec("v", 10_000, 0, 9),
              sx.vec("c", 10_000, 0, 9))
    rd = Reader(path, verbose=None)
    with closing(rd):
        sx.check("no waveforms", len(rd.gpio_to_waveforms()) == 0)
        sx.check("no named waveforms", len(rd.gpio_to_waveforms("uart")) == 0)
        sx.check("no pin", rd.get_gpio_pin_num("uart") is None)
        sx.check("no uart", rd.gpio_to_uart() is None)


def flt(sx):
    from shepherd_core import Reader
    n = 5
    a = sx.array("a", n, 0, 2, dtype="i8") > 0
    f = sx.need(Reader, "get_filter_for_redundant_states")(a)
    for k in range(n):
        e = True if k == 0 else a[k] != a[k - 1]
        sx.check(f"keep {k}", sx.iff(f[k], e))


def flt_long(sx):
    from shepherd_core import Reader
    n = sx.int("n", 1, 2**20)
    a = sx.vec("a", n, 0, 1, dtype="u1") > 0
    f = sx.need(Reader, "get_filter_for_redundant_states")(a)
    sx.check("length", sx.length(f) == n)
    sx.check("first kept", sx.at(f, 0))
    sx.forall("kept when different", n - 1,
              lambda k: sx.iff(sx.at(f, k + 1), sx.neg(sx.iff(sx.at(a, k), sx.at(a, k + 1)))))
