"""C27 tasks and features with impossible timing or settings are rejected"""
import contextlib
import os
import time
from datetime import timedelta, timezone

from .xp_common import database, energy, firmware

BOUNDS = ("durations and delays -11 .. 11 days, start times 11 days around the present (except the last 10 s and next 60 s), "
          "symbolic at microsecond resolution, given as aware or naive date, ISO text, unix time (int and float), in two "
          "local timezones; every mask, switch, auxiliary voltage, pin description")
OUTSIDE = "local timezones with daylight saving; other text formats; whole-day ISO text"
STUBS = ["clock stands still during symbolic execution", "ISO text of a symbolic instant is parsed by its inverse",
         "logging disabled"]
MODULES = ("shepherd_core.data_models.task", "shepherd_core.data_models.experiment", "shepherd_core.data_models.testbed")
FAKE_H5 = False
TIME = True
FORMS = ("aware", "zone", "naive", "text", "text_zone", "text_naive", "unix", "unix_float", "none")


def cases(tier):
    out = []
    for task in ("emu", "hrv"):
        out += [(f"start/{task}/{f}/{z}", "start", {"task": task, "form": f, "zone": z}) for f in FORMS
                for z in ("utc", "east") if z == "utc" or "naive" in f or "unix" in f]
        out += [(f"duration/{task}", "duration", {"task": task})]
    out += [(f"tracing/{k}/{f}", "tracing", {"kind": k, "form": f}) for k in ("power", "gpio") for f in ("td", "seconds")]
    out += [("duration/xp", "xp", {}), ("discard", "discard", {}), ("mask", "mask", {}), ("aux", "aux", {}),
            ("pins/shipped", "pins", {}), ("pins/any", "any_pin", {}), ("pins/wiring", "wiring", {}),
            ("actuation", "actuation", {}), ("event", "event", {}), ("ranges", "ranges", {})]
    return out


def make(task, **kw):
    if task == "emu":
        from shepherd_core.data_models.task import EmulationTask
        return EmulationTask(input_path="/tmp/in.h5", output_path="/tmp/out.h5", **kw)
    from shepherd_core.data_models.task import HarvestTask
    return HarvestTask(output_path="/tmp/out.h5", **kw)


@contextlib.contextmanager
def local_zone(zone):
    old = os.environ.get("TZ")
    os.environ["TZ"] = {"utc": "UTC", "east": "XXX-5:30"}[zone]
    time.tzset()
    try:
        yield timedelta(hours=5.5 if zone == "east" else 0)
    finally:
        os.environ["TZ"] = old or "UTC"
        time.tzset()


def start(sx, task, form, zone):
    past = sx.flag("past")
    with local_zone(zone) as offset:
        if form in ("unix", "unix_float"):
            base = int(sx.now().timestamp())
            f = sx.int if form == "unix" else sx.real
            off = f("off", -10**6, -10) if past else f("off", 60, 10**6)
            given, want = base + off, base + off
        else:
            off = sx.td("off", -10**6, -10) if past else sx.td("off", 60, 10**6)
            inst = sx.now() + off
            want = inst
            far = timezone(timedelta(hours=-7))
            given = {"aware": lambda: inst, "zone": lambda: inst.astimezone(far), "text": lambda: inst.isoformat(),
                     "text_zone": lambda: inst.astimezone(far).isoformat(), "none": lambda: None,
                     "naive": lambda: (inst + offset).replace(tzinfo=None),
                     "text_naive": lambda: (inst + offset).replace(tzinfo=None).isoformat()}[form]()
        ok, t = sx.attempt(lambda: make(task, time_start=given), ValueError)
        if form == "none":
            sx.check("no start time is fine", ok and t.time_start is None)
            return
        sx.check("refused exactly if in the past", ok != past)
        if ok:
            sx.check("zone is known", t.time_start.tzinfo is not None)
            if form in ("unix", "unix_float"):
                sx.check_close("same instant", t.time_start.timestamp(), want, 2e-6)
            else:
                sx.check_eq("same instant", t.time_start, want)


def duration(sx, task):
    form = sx.choice("form", ["td", "seconds", "none"])
    d = {"td": lambda: sx.td("d", -10**6, 10**6), "seconds": lambda: sx.int("s", -10**6, 10**6), "none": lambda: None}[form]()
    ok, t = sx.attempt(lambda: make(task, duration=d), ValueError)
    timing(sx, ok, t.duration if ok else None, form, d)


def timing(sx, ok, got, form, d):
    if form == "none":
        sx.check("unset is fine", ok and got is None)
        return
    sec = d.total_seconds() if form == "td" else d
    if ok:
        sx.check("not negative", sec >= 0)
        sx.check_close("kept", got.total_seconds(), sec, 1e-9)
    else:
        sx.check("refused only if negative", sec < 0)


def tracing(sx, kind, form):
    from shepherd_core.data_models.experiment import GpioTracing, PowerTracing
    cls = PowerTracing if kind == "power" else GpioTracing
    if form == "td":
        a, b = sx.td("delay", -10**6, 10**6), sx.td("duration", -10**6, 10**6)
        sa, sb = a.total_seconds(), b.total_seconds()
    else:
        a, b = sx.int("delay", -10**6, 10**6), sx.int("duration", -10**6, 10**6)
        sa, sb = a, b
    ok, t = sx.attempt(lambda: cls(delay=a, duration=b), ValueError)
    if ok:
        sx.check("not negative", sx.both(sa >= 0, sb >= 0))
        sx.check_close("delay kept", t.delay.total_seconds(), sa, 1e-9)
        sx.check_close("duration kept", t.duration.total_seconds(), sb, 1e-9)
    else:
        sx.check("refused only if negative", sx.either(sa < 0, sb < 0))
    ok, t = sx.attempt(lambda: cls(delay=a), ValueError)
    sx.check("delay alone", sx.iff(sa >= 0, ok))
    if ok:
        sx.check("no end", t.duration is None)


def xp(sx):
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    database()
    cfg = TargetConfig(target_IDs=[5003], energy_env=energy(), firmware1=firmware())
    form = sx.choice("form", ["td", "seconds", "none"])
    d = {"td": lambda: sx.td("d", -10**6, 10**6), "seconds": lambda: sx.int("s", -10**6, 10**6), "none": lambda: None}[form]()
    ok, t = sx.attempt(lambda: Experiment(name="x", target_configs=[cfg], duration=d), ValueError)
    timing(sx, ok, t.duration if ok else None, form, d)


def discard(sx):
    from shepherd_core.data_models.experiment import PowerTracing
    c, v = sx.bool("current"), sx.bool("voltage")
    ok, t = sx.attempt(lambda: PowerTracing(discard_current=c, discard_voltage=v), ValueError)
    sx.check("refused exactly if nothing is left", sx.iff(sx.neg(sx.both(c, v)), ok))
    if ok:
        sx.check("kept", sx.both(sx.iff(c, t.discard_current), sx.iff(v, t.discard_voltage)))


def mask(sx):
    from shepherd_core.data_models.experiment import GpioTracing
    m = sx.int("mask", -5, 5000)
    ok, t = sx.attempt(lambda: GpioTracing(mask=m), ValueError)
    sx.check("refused exactly if no pin is left or unknown", sx.iff(sx.both(m > 0, m < 1024), ok))
    if ok:
        sx.check_eq("kept", t.mask, m)


def ranges(sx):
    from shepherd_core.data_models.experiment import GpioTracing, PowerTracing
    r, b = sx.int("rate", 0, 10**6), sx.int("baud", 0, 10**7)
    ok, _ = sx.attempt(lambda: PowerTracing(samplerate=r), ValueError)
    sx.check("sample rate", sx.iff(sx.both(r >= 10, r <= 100_000), ok))
    ok, _ = sx.attempt(lambda: GpioTracing(uart_baudrate=b), ValueError)
    sx.check("baud rate", sx.iff(sx.both(b >= 2400, b <= 921_600), ok))


def aux(sx):
    if sx.flag("text"):
        s = sx.choice("word", ["main", "buffer", "mid", "Main", "output", " ", "none"])
        ok, t = sx.attempt(lambda: make("emu", voltage_aux=s), ValueError)
        sx.check("accepted exactly if known", ok == (s in ("main", "buffer")))
        if ok:
            sx.check("kept", t.voltage_aux == s)
    else:
        v = sx.real("v", -10, 10)
        ok, t = sx.attempt(lambda: make("emu", voltage_aux=v), ValueError)
        sx.check("accepted exactly if possible", sx.iff(sx.both(v >= 0, v <= 4.5), ok))
        if ok:
            sx.check_close("kept", t.voltage_aux, v, 1e-12)


def event_of(gpio, **kw):
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    return GpioEvent(**{"delay": 1, "gpio": gpio, "level": "H", **kw})


def pins(sx):
    from shepherd_core.data_models.testbed import GPIO

    from .c23 import database as shipped
    from .c23 import resolve
    nm = sx.choice("pin", list(shipped()["gpio"]))
    d = sx.real("delay", 0.001, 100)
    raw = resolve("gpio", nm)
    good = "gpio" in nm.lower() and str(raw.get("direction", "IN")).upper() in ("IO", "OUT")
    ok, _ = sx.attempt(lambda: event_of(GPIO(name=nm), delay=d), ValueError)
    sx.check("accepted exactly if controllable", ok == good)


def any_pin(sx):
    from shepherd_core.data_models.testbed import GPIO
    nm = sx.choice("name", ["myGPIO3", "gpio_x", "UART_TX", "led", "GP10"])
    dr = sx.choice("direction", ["IN", "OUT", "IO"])
    ok, _ = sx.attempt(lambda: event_of(GPIO(id=9001, name=nm, direction=dr, reg_pru="r31_00", pin_pru="P8_45"),
                                        delay=sx.real("delay", 0.001, 100)), ValueError)
    sx.check("accepted exactly if controllable", ok == ("gpio" in nm.lower() and dr != "IN"))


def wiring(sx):
    """a pin is connected to the pru or to linux"""
    from shepherd_core.data_models.testbed import GPIO
    reg = sx.int("reg", 0, 99)
    have = {"reg_pru": "r31_00", "pin_pru": "P8_45", "reg_sys": reg, "pin_sys": "P8_14"}
    kw = {k: v for k, v in have.items() if sx.flag(k)}
    ok, _ = sx.attempt(lambda: GPIO(id=9001, name="pin", **kw), ValueError)
    sx.check("accepted exactly if wired", ok == ({"reg_pru", "pin_pru"} <= set(kw) or {"reg_sys", "pin_sys"} <= set(kw)))


def actuation(sx):
    """not supported by the observers yet, so it must not be silently dropped"""
    from shepherd_core.data_models.experiment.observer_features import GpioActuation
    from shepherd_core.data_models.testbed import GPIO
    act = GpioActuation(events=[event_of(GPIO(name="GPIO0"), delay=sx.real("delay", 0.001, 100))])
    ok, _ = sx.attempt(lambda: make("emu", gpio_actuation=act), ValueError, NotImplementedError)
    sx.check("refused", not ok)


def event(sx):
    from shepherd_core.data_models.testbed import GPIO
    d, p, c = sx.real("delay", -10, 100), sx.real("period", -1, 10), sx.int("count", -5, 5000)
    ok, e = sx.attempt(lambda: event_of(GPIO(name="GPIO0"), delay=d, period=p, count=c), ValueError)
    sx.check("accepted exactly if possible", sx.iff(sx.both(d > 0, p >= 10e-6, c >= 1, c <= 4096), ok))
    if ok:
        sx.check("kept", sx.both(e.delay == d, e.period == p, e.count == c))
