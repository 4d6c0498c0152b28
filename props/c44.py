"""C44 names are safe for file systems, texts are printable, public content is described and owned"""
BOUNDS = ("names, owners and groups of 0..40 characters, one of them (first, middle, last, only) an arbitrary unicode character; descriptions and "
          "comments of 1..5 arbitrary characters; every combination of description, visibility, owner and group (missing, empty, given)")
OUTSIDE = "several unusual characters in one name (the pattern treats characters alike), descriptions longer than 5 characters"
STUBS = ["pydantic -> symbolic validation (regular expressions and whitespace rules re-implemented, replays use pydantic)"]
MODULES = ()
BAD = '<>:;,?"*|/\\'
WHITE = (*range(9, 14), 0x20, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


def cases(tier):
    out = []
    for model in ("EnergyEnvironment", "VirtualSourceConfig", "VirtualHarvesterConfig", "Experiment"):
        for field in ("name", "owner", "group") if model != "Experiment" else ("name",):
            if tier == "quick" and model != "EnergyEnvironment" and field != "name":
                continue
            out += [(f"name/{model}/{field}/{pos}", "name", {"model": model, "field": field, "pos": pos}) for pos in ("only", "first", "mid", "last")]
            out.append((f"length/{model}/{field}", "length", {"model": model, "field": field}))
        for field in ("description", "comment"):
            for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
                out.append((f"text/{model}/{field}/{n}", "text", {"model": model, "field": field, "n": n}))
        if model != "Experiment":
            out += [(f"visible/{model}", "visible", {"model": model}), (f"owner/{model}", "owner", {"model": model})]
    return out


def create(sx, model, **kw):
    from shepherd_core import data_models as dm
    if model == "EnergyEnvironment":
        d = {"data_path": "a.h5", "data_type": "ivsample", "duration": sx.real("duration", 1, 10), "energy_Ws": 0.5}
    elif model == "Experiment":
        from shepherd_core.data_models.experiment import TargetConfig
        from shepherd_core.data_models import EnergyEnvironment, Firmware
        tgt = TargetConfig(target_IDs=[1], energy_env=EnergyEnvironment(name="solar_eve_env", data_path="a.h5", data_type="ivsample", duration=1,
                                                                         energy_Ws=0.5, valid=True), firmware1=Firmware(name="nrf52_demo_rf"))
        d = {"target_configs": [tgt]}
    else:
        d = {"created": 1_700_000_000}  # a name on its own asks the database
    if model == "VirtualHarvesterConfig":
        d["algorithm"] = "mppt_voc"
    d = {"name": "thing", **d, **kw}
    d = {k: v for k, v in d.items() if v != "missing"}
    cls = getattr(dm, model, None)
    if cls is None:
        from shepherd_core.data_models import experiment
        cls = getattr(experiment, model)
    return cls(**d)


def char(sx, name):
    c = sx.int(name, 1, 0x10FFFF)
    sx.assume(sx.either(c < 0xD800, c > 0xDFFF))
    return c


def word(sx, codes):
    if sx.sym:
        from symx.shims import SymStr
        return SymStr([ord(c) if isinstance(c, str) else c for c in codes])
    return "".join(c if isinstance(c, str) else chr(c) for c in codes)


def among(sx, c, chars):
    return sx.either(*[c == (ord(x) if isinstance(x, str) else x) for x in chars])


def value_of(obj, field):
    return getattr(obj, field)


def name(sx, model, field, pos):
    c = char(sx, "char")
    codes = {"only": [c], "first": [c, "b"], "mid": ["a", c, "b"], "last": ["a", c]}[pos]
    bad, white = among(sx, c, BAD), among(sx, c, WHITE)
    if pos == "only":
        good = sx.neg(sx.either(bad, white))
    else:
        good = sx.neg(bad)
    r = sx.attempt(lambda: create(sx, model, **{field: word(sx, codes)}), ValueError)
    sx.check("accepted exactly without forbidden characters", sx.iff(r[0], good))
    if r[0]:
        got = value_of(r[1], field)
        if sx.is_true(white) and pos in ("first", "last"):
            codes = [x for x in codes if x is not c]
        sx.check("kept as it is", got == word(sx, codes))
    sx.observe("ok", r[0])


def length(sx, model, field):
    n = sx.choice("n", [0, 1, 31, 32, 33, 40])
    c = char(sx, "char")
    sx.assume(sx.neg(among(sx, c, [*BAD, *WHITE])))
    r = sx.attempt(lambda: create(sx, model, **{field: word(sx, ["x"] * (n // 2) + [c] * (n > 0) + ["y"] * (n - n // 2 - (n > 0)))}), ValueError)
    sx.check("1 to 32 characters", (r[0]) == (1 <= n <= 32))


def text(sx, model, field, n):
    codes = [char(sx, f"c{k}") for k in range(n)]
    # white space at the ends is dropped; inner characters must be printable ascii
    ends = [sx.is_true(among(sx, c, WHITE)) for c in (codes[0], codes[-1])]
    good = [sx.both(c >= 0x20, c <= 0x7E) for c in codes]
    r = sx.attempt(lambda: create(sx, model, **{field: word(sx, codes)}), ValueError)
    if not any(ends):
        sx.check("accepted exactly when printable", sx.iff(r[0], sx.both(*good)))
        if r[0]:
            sx.check("kept as it is", getattr(r[1], field) == word(sx, codes))
    elif r[0]:
        sx.check("only printable characters are stored", sx.both(*[sx.both(sx.ord(x) >= 0x20, sx.ord(x) <= 0x7E) for x in getattr(r[1], field)]))
    sx.observe("ok", r[0])


def visible(sx, model):
    desc = sx.choice("desc", ["missing", None, "some text"])
    note = sx.choice("comment", ["missing", "a note"])
    kw = {}
    for k in ("visible2group", "visible2all"):
        if sx.flag("has_" + k):
            kw[k] = sx.bool(k)
    r = sx.attempt(lambda: create(sx, model, description=desc, comment=note, **kw), ValueError)
    public = sx.either(kw.get("visible2group", False), kw.get("visible2all", False))
    sx.check("public needs a description", sx.iff(r[0], sx.neg(public) if desc != "some text" else True))
    if r[0]:
        for k in ("visible2group", "visible2all"):
            sx.check("private unless asked for", sx.iff(getattr(r[1], k), kw.get(k, False)))
    sx.observe("ok", r[0])


def owner(sx, model):
    o = sx.choice("owner", ["missing", None, "me"])
    g = sx.choice("group", ["missing", None, "us"])
    obj = create(sx, model, owner=o, group=g)
    sx.check("owner is never replaced", obj.owner == "me" if o == "me" else obj.owner)
    sx.check("group is never replaced", obj.group == "us" if g == "us" else obj.group)
    sx.check("name is kept", obj.name == "thing")
    sx.check("identified", obj.id is not None)
