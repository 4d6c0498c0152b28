"""C29 periodic GPIO events have exactly the configured count and times"""
BOUNDS = ("start delay 10 us .. 1e6 s and period 10 us .. 1e4 s (both as any number and as multiple of 10 us), any count 1..4096 "
          "(symbolic, and one by one for the counts listed in the cases); rounding of the number of steps up to 3 ulp")
OUTSIDE = "events closer than the floating-point resolution of their time"
STUBS = []
MODULES = ("shepherd_core.data_models.experiment",)
FAKE_H5 = False
COUNTS = (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 15, 20, 31, 50, 63, 64, 100, 127, 255, 1000, 1023, 4095, 4096)


def cases(tier):
    out = [(f"grid/{c}", "grid", {"count": c}) for c in (COUNTS if tier == "quick" else range(1, 4097, 1) if tier == "all" else
                                                        sorted({*COUNTS, *range(1, 200), *range(200, 4096, 37)}))]
    out += [(f"any/{c}", "free", {"count": c}) for c in (1, 2, 3, 7, 100, 4096)] + [("any/any", "free", {"count": None})]
    out += [("default", "default", {}), ("pins", "pins", {}), ("bounds", "bounds", {})]
    return [(*c, {"t_query": 3000}) for c in out]


def event(delay, **kw):
    from shepherd_core.data_models.experiment import GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    return GpioEvent(delay=delay, gpio=GPIO(name=kw.pop("pin", "GPIO0")), level="H", **kw)


def compare(sx, ev, delay, period, count, strong=None):
    n = sx.length(ev)
    sx.check("exactly count events", n == count, strong=strong(n) if sx.sym and strong else None)
    sx.assume(n == count) if sx.sym else None
    last = sx.at(ev, count - 1)
    tol = 1e-6
    sx.check_close("first", sx.at(ev, 0), delay, tol)
    sx.check_close("last", last, delay + (count - 1) * period, tol)
    sx.forall("each", count, lambda k: abs(sx.at(ev, k) - (delay + k * period)) <= tol)


def grid(sx, count):
    a, b = sx.int("a", 1, 10**11), sx.int("b", 1, 10**9)
    delay, period = a / 100_000, b / 100_000
    count = sx.int("count", count, count)
    ev = event(delay, period=period, count=count).get_events()
    # usual numbers first
    tries = [(1, 1), (10, 3), (100_000, 10), (50_000, 7), (3, 33), (100_000, 70_000), (20_000, 11), (123_456, 100), (7, 1000)]
    compare(sx, ev, delay, period, count, lambda n: [sx.both(n != count, a == x, b == y) for x, y in tries])


def free(sx, count):
    delay, period = sx.real("delay", 1e-5, 1e6), sx.real("period", 1e-5, 1e4)
    n = sx.int("count", count or 1, count or 4096)
    ev = event(delay, period=period, count=n).get_events()
    compare(sx, ev, delay, period, n)


def default(sx):
    delay = sx.real("delay", 1e-5, 1e6)
    e = event(delay)
    sx.check("once", sx.length(e.get_events()) == 1)
    sx.check_close("at the delay", sx.at(e.get_events(), 0), delay, 1e-6)
    n = sx.int("n", 1, 4096)
    compare(sx, event(delay, count=n).get_events(), delay, 1, n)


def pins(sx):
    from shepherd_core.data_models.experiment import GpioActuation
    names = [sx.choice(f"pin{i}", ["GPIO0", "GPIO1", "GPIO2"]) for i in range(3)]
    act = GpioActuation(events=[event(sx.real(f"d{i}", 1e-5, 1e6), pin=p) for i, p in enumerate(names)])
    sx.check("pins that are driven", sorted(getattr(g, "name", "?") for g in act.get_gpios()) == sorted(set(names)))


def bounds(sx):
    d, p, n = sx.real("d", -1, 1), sx.real("p", -1, 1), sx.int("n", -5, 5000)
    ok, _e = sx.attempt(lambda: event(d, period=p, count=n), ValueError)
    sx.check("refused exactly if out of range", sx.iff(sx.both(d > 0, p >= 10e-6, n >= 1, n <= 4096), ok))
