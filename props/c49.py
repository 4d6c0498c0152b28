"""C49 descriptions of the hardware are complete and stay within its limits"""
BOUNDS = ("all ids from -10 to 2**128+10, all testbed ids, programming voltages -10..10 V and rates -10..2*10**6, register numbers, recordings' durations and "
          "energies, texts of every length up to twice the limit, names of up to 8 characters with any one of them arbitrary and 'gpio' in any case, every "
          "pattern of missing pins, every way to name a microcontroller")
OUTSIDE = "descriptions of observers (C26) and testbeds, free texts (C44), dates"
STUBS = ["pydantic -> symbolic validation (replays use pydantic)"]
OWN = 1 << 20  # none of the shipped elements
MODULES = ("shepherd_core.data_models.testbed",)


def cases(tier):
    out = [("gpio/pins", "pins", {}), ("gpio/lengths", "lengths", {}), ("gpio/register", "register", {})]
    out += [(f"gpio/user/{d}/{p}", "user", {"direction": d, "pos": p}) for d in ("IN", "OUT", "IO") for p in ((0, 3) if tier == "quick" else (0, 1, 2, 3, 4))]
    out += [("gpio/direction", "direction", {}), ("mcu/limits", "mcu", {}), ("mcu/default", "mcu_default", {})]
    out += [(f"target/{one}/{two}", "target", {"one": one, "two": two}) for one in ("name", "dict", "model") for two in ("none", "name", "dict", "model")]
    out += [(f"target/id/{g}", "target_id", {"given": g}) for g in ("none", "value")]
    out += [("target/text", "id_text", {}), ("target/incomplete", "incomplete", {}), ("target/custom", "custom_mcu", {}), ("environment", "environment", {})]
    out += [(f"id/{m}", "ids", {"model": m}) for m in ("GPIO", "MCU", "Target", "Cape")]
    return out


def make(sx, kind, **kw):
    from shepherd_core.data_models import testbed
    d = {"id": OWN, "name": "thing"}
    d |= {"GPIO": {"direction": "OUT", "reg_pru": "r", "pin_pru": "p"},
          "MCU": {"description": "d", "platform": "pf", "core": "c", "prog_protocol": "SWD", "fw_name_default": "fw"},
          "Target": {"version": "v1", "description": "d", "mcu1": "nrf52", "created": "2024-01-01"},
          "Cape": {"version": "v1", "description": "d", "created": "2024-01-01"}}[kind]
    d |= kw
    return getattr(testbed, kind)(**{k: v for k, v in d.items() if v != "missing"})


def works(sx, label, want, fn):
    """a model comes out exactly if it is fine, otherwise a validation error"""
    ok, r = sx.attempt(fn, ValueError)
    sx.check(label, sx.iff(ok, want))
    return r if ok else None


def pins(sx):
    n = {k: sx.choice(k, ["given", "missing", "none"]) for k in ("reg_pru", "pin_pru", "reg_sys", "pin_sys")}
    num = sx.int("num", 0, 200)
    vals = {"reg_pru": "r30", "pin_pru": "P8", "reg_sys": num, "pin_sys": "P9"}
    d = {k: vals[k] if w == "given" else None if w == "none" else "missing" for k, w in n.items()}
    pru = n["reg_pru"] == "given" and n["pin_pru"] == "given"
    sys = n["reg_sys"] == "given" and n["pin_sys"] == "given"
    g = works(sx, "connected", pru or sys, lambda: make(sx, "GPIO", **d))
    if g is not None:
        for k, w in n.items():
            v = getattr(g, k)
            if w != "given":
                sx.check(f"{k} is free", v is None)
            elif k == "reg_sys":
                sx.check_eq("register", v, num)
            else:
                sx.check(f"{k} is kept", v == vals[k])


def register(sx):
    num = sx.int("num", -100, 1000)
    g = works(sx, "number of a register", num >= 0, lambda: make(sx, "GPIO", reg_sys=num, pin_sys="P9"))
    if g is not None:
        sx.check_eq("kept", g.reg_sys, num)


def lengths(sx):
    n = sx.choice("len", list(range(1, 70)))
    sx.int("dummy", 0, 1)
    for k, limit in (("reg_pru", 10), ("pin_pru", 10), ("pin_sys", 10), ("dir_switch", 32)):
        works(sx, f"length of {k}", n <= limit, lambda: make(sx, "GPIO", **{k: "x" * n}))


def direction(sx):
    d = sx.choice("direction", ["IN", "OUT", "IO", "missing", "in", "X", ""])
    sx.int("dummy", 0, 1)
    g = works(sx, "known direction", d in ("IN", "OUT", "IO", "missing"), lambda: make(sx, "GPIO", direction=d))
    if g is not None:
        sx.check("kept", str(getattr(g.direction, "value", g.direction)) == ("IN" if d == "missing" else d))


def text(sx, cs):
    if sx.sym:
        from symx.shims import SymStr
        return SymStr([ord(c) if isinstance(c, str) else c for c in cs])
    return "".join(c if isinstance(c, str) else chr(c) for c in cs)


def user(sx, direction, pos):
    """who can be toggled by experiments: outputs of the gpio group"""
    word = ["g", "p", "i", "o"]
    c = sx.int("char", 0x21, 0x7E)
    for bad in '<>:;,?"*|/\\':
        sx.assume(c != ord(bad))
    upper = sx.flag("upper")
    if upper:
        word = [w.upper() for w in word]
    name = [*word, "7"] if pos == 4 else word[:]
    name[pos] = c
    extra = sx.choice("extra", ["", "uart_", "x"])
    full = [*extra, *name]
    g = make(sx, "GPIO", name=text(sx, full), direction=direction)
    sx.check("user can control it", sx.iff(g.user_controllable(), sx.both(direction in ("OUT", "IO"), is_gpio(sx, c, pos))))


def is_gpio(sx, c, pos):
    if pos == 4:
        return True
    w = "gpio"[pos]
    return sx.either(c == ord(w), c == ord(w.upper()))


def mcu(sx):
    v = sx.real("voltage", -10, 10)
    r = sx.int("rate", -10, 2_000_000)
    m = works(sx, "programmable", sx.both(v >= 1, v <= 5, r > 0, r <= 1_000_000), lambda: make(sx, "MCU", prog_voltage=v, prog_datarate=r))
    if m is not None:
        sx.check_exact("voltage", m.prog_voltage, v, 1e-9)
        sx.check_eq("rate", m.prog_datarate, r)


def mcu_default(sx):
    p = sx.choice("protocol", ["SWD", "SBW", "JTAG", "UART", "swd", "X", "missing"])
    r = sx.int("rate", 1, 1_000_000)
    m = works(sx, "known protocol", p in ("SWD", "SBW", "JTAG", "UART"), lambda: make(sx, "MCU", prog_protocol=p, prog_datarate=r))
    if m is not None:
        sx.check("protocol", str(getattr(m.prog_protocol, "value", m.prog_protocol)) == p)
        sx.check("voltage unless given", m.prog_voltage == 3)


KNOWN = {"nrf52": ("SWD", "nRF52"), "msp430fr": ("SBW", "MSP430FR")}


def given(how, name):
    from shepherd_core.data_models.testbed import MCU
    return {"none": None, "name": name, "dict": {"name": name}, "model": None}[how] if how != "model" else MCU(name=name)


def target(sx, one, two):
    """microcontrollers by name, as query or as they are"""
    a = sx.choice("first", ["nrf52", "msp430fr", "nobody"])
    b = sx.choice("second", ["nrf52", "msp430fr", "nobody"]) if two != "none" else None
    if (one == "model" and a == "nobody") or (two == "model" and b == "nobody"):
        return
    i = sx.int("id", OWN, 1 << 40)
    from shepherd_core.data_models.testbed import MCU
    t = works(sx, "known controllers", "nobody" not in (a, b), lambda: make(sx, "Target", id=i, mcu1=given(one, a), mcu2=given(two, b) if b else None))
    if t is None:
        return
    sx.check("first", isinstance(t.mcu1, MCU) and t.mcu1.name == MCU(name=a).name)
    sx.check("first is complete", (t.mcu1.platform, str(t.mcu1.core)) == (MCU(name=a).platform, str(MCU(name=a).core)))
    if b is None:
        sx.check("no second", t.mcu2 is None)
    else:
        sx.check("second", isinstance(t.mcu2, MCU) and t.mcu2.id == MCU(name=b).id)


def custom_mcu(sx):
    """a controller that is no part of the shipped set"""
    v = sx.real("voltage", 0, 6)
    d = {"id": 77, "name": "mine", "description": "d", "platform": "pf", "core": "c", "prog_protocol": "JTAG", "fw_name_default": "fw", "prog_voltage": v}
    t = works(sx, "limits hold", sx.both(v >= 1, v <= 5), lambda: make(sx, "Target", mcu1=d))
    if t is not None:
        sx.check("name", t.mcu1.name == "mine")
        sx.check_exact("voltage", t.mcu1.prog_voltage, v, 1e-9)


def target_id(sx, given):
    i = sx.int("id", OWN, 1 << 40)
    kw = {}
    if given == "value":
        kw["testbed_id"] = tb = sx.int("testbed", -10, 70_000)
        want = sx.both(tb >= 0, tb < 65536)
    else:
        kw["testbed_id"] = sx.choice("how", ["missing", None])
        tb, want = i % 65536, True
    t = works(sx, "sixteen bits", want, lambda: make(sx, "Target", id=i, **kw))
    if t is not None:
        sx.check_eq("id", t.id, i)
        sx.check_eq("id within the testbed", t.testbed_id, tb)


def incomplete(sx):
    what = sx.choice("gone", ["id", "name", "version", "description", "mcu1"])
    i = sx.int("id", OWN, OWN + 1000)
    tb = sx.choice("testbed", ["missing", 5])
    i = sx.choice("kind", [i, str(OWN), "five"]) if what != "id" else i
    works(sx, "every part is needed", False, lambda: make(sx, "Target", **{"id": i, "testbed_id": tb, what: "missing"}))


def id_text(sx):
    """ids as text count as well"""
    sx.int("dummy", 0, 1)
    n = sx.choice("id", [OWN, OWN + 65535, OWN + 65537])
    t = works(sx, "number", True, lambda: make(sx, "Target", id=str(n)))
    if t is not None:
        sx.check("id", t.id == n)
        sx.check("id within the testbed", t.testbed_id == n % 65536)


def environment(sx):
    from shepherd_core.data_models import EnergyEnvironment
    d = sx.real("duration", -10, 10)
    e = sx.real("energy", -10, 10)
    kind = sx.choice("kind", ["ivsample", "ivcurve", "isc_voc", "other"])
    m = works(sx, "positive", sx.both(kind != "other", d > 0, e > 0),
              lambda: EnergyEnvironment(name="thing", data_path="a.h5", data_type=kind, duration=d, energy_Ws=e))
    if m is not None:
        sx.check_exact("duration", m.duration, d, 1e-9)
        sx.check_exact("energy", m.energy_Ws, e, 1e-9)
        sx.check("nobody has validated it", m.valid is False)


def ids(sx, model):
    big = sx.flag("big")
    i = sx.int("id", (1 << 128) - 10, (1 << 128) + 10) if big else sx.int("id", -10, 10)
    m = works(sx, "id", sx.both(i >= 0, i < 1 << 128), lambda: make(sx, model, id=i))
    if m is not None:
        sx.check_eq("kept", m.id, i)
