"""C23 model inheritance resolves to the nearest explicit value"""
from pathlib import Path

BOUNDS = ("databases of 3 (quick) / 4 (thorough) elements; every inheritance graph over them (parent none, any element "
          "incl. itself, unknown), every pattern of explicit / explicitly None / missing parameters, values symbolic "
          "integers; 8 ways to start; all shipped elements with every parameter overridden")
OUTSIDE = "ancestors referenced by integer instead of name; deeper graphs"
STUBS = ["logging disabled"]
MODULES = ("shepherd_core.testbed_client.fixtures", "shepherd_core.testbed_client.client_abc_fix",
           "shepherd_core.data_models")
FAKE_H5 = False

STARTS = ("inherit", "inherit_named", "inherit_case", "inherit_digits", "name", "name_case", "id", "shared_name")
KINDS = ("VirtualSourceConfig", "VirtualHarvesterConfig", "Target", "Observer", "Cape", "EnergyEnvironment",
         "Firmware", "MCU", "GPIO", "Testbed")


def cases(tier):
    n = 3 if tier == "quick" else 4
    out = [(f"graph/{s}", "graph", {"start": s, "n": n}) for s in STARTS]
    out += [("unrelated", "unrelated", {}), ("self", "own_name", {})]
    out += [(f"shipped/{k}", "shipped", {"kind": k}) for k in KINDS]
    out += [("model/source", "model_source", {}), ("model/harvester", "model_harvester", {})]
    return out


def name(i):
    return f"Elem{'ABCD'[i]}"


def own(sx, tag):
    """explicit value of p: none, a number, None; q is the other way round"""
    r = {}
    what = sx.choice(f"has_{tag}", ["no", "value", "none"])
    if what == "value":
        r["p"] = sx.int(f"p_{tag}", -9, 9)
    elif what == "none":
        r["p"] = None
    else:
        r["q"] = sx.int(f"q_{tag}", -9, 9)
    return r


def make(elements):
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client.fixtures import Fixture
    fix = Fixture("Thing")
    for e in elements:
        fix.insert(Wrapper(datatype="THING", parameters=e))
    return fix


def graph(sx, start, n):
    """the database is decided on while walking up from the first element"""
    elements = [{"name": name(i), "id": 10 + i} for i in range(n)]
    walk, k, outcome = [], 0, "ok"
    while True:
        if k in walk:
            outcome = "circle"
            break
        walk.append(k)
        elements[k].update(own(sx, f"e{k}"))
        up = sx.choice(f"parent_{k}", ["root", "unknown", *range(n)])
        if up == "root":
            break
        if up == "unknown":
            elements[k]["inherit_from"] = "nobody"
            outcome = "unknown"
            break
        elements[k]["inherit_from"] = name(up).upper() if up == 1 else name(up)
        k = up
    fix = make(elements)
    before = [dict(e) for e in elements]
    first = name(0)
    mine = own(sx, "mine")
    req = dict(mine)
    if start == "inherit":
        req["inherit_from"] = first
    elif start == "inherit_named":
        req = {"name": "mine", "id": 5, "inherit_from": first, **mine}
    elif start == "shared_name":
        # a user's model may have the name of an element further up
        req = {"name": name(n - 1), "id": 5, "inherit_from": first, **mine}
    elif start == "inherit_case":
        req["inherit_from"] = first.upper()
    elif start == "inherit_digits":
        req["inherit_from"] = "10"
    elif start == "name":
        req["name"] = first
    elif start == "name_case":
        req["name"] = first.lower()
    else:
        req["id"] = 10
    given = dict(req)
    ok, got = sx.attempt(lambda: fix.inheritance(req), ValueError)
    sx.check(f"{outcome}: ValueError exactly for broken chains", ok == (outcome == "ok"))
    sx.check("query is left alone", list(req) == list(given))
    for i, e in enumerate(before):
        sx.check_eq("database is left alone", fix[name(i)], e)
        sx.check_eq("database is left alone (id)", fix[10 + i], e)
    if ok and outcome == "ok":
        values = got[0]
        expect = {}
        for i in reversed(walk):
            expect.update(elements[i])
        expect.update(given)
        for k in ("p", "q"):
            sx.check(f"{k} is set as expected", (k in values) == (k in expect))
            if k in expect:
                sx.check_eq(f"{k} has the nearest explicit value", values.get(k), expect[k])
        for k in ("name", "id"):
            if k in given:
                sx.check_eq(f"own {k} is kept", values.get(k), given[k])
        sx.check("nothing is left to resolve", "inherit_from" not in values)
        if start in ("name", "name_case"):
            sx.check_eq("id of the element", values["id"], 10)
        if start == "id":
            sx.check_eq("name of the element", values["name"], name(0))
        if start in ("inherit", "inherit_case"):
            sx.check_eq("named after the ancestor", values["name"].lower(), name(0).lower())
        values["p"] = values["new"] = 99
        for i, e in enumerate(before):
            sx.check_eq("database is left alone when the result is changed", fix[name(i)], e)


def unrelated(sx):
    """nothing to inherit: values come back as given"""
    fix = make([{"name": "ElemA", "id": 10, "p": 1}])
    mine = own(sx, "mine")
    req = dict(mine)
    kind = sx.choice("kind", ["name", "id", "both", "none"])
    if kind in ("name", "both"):
        req["name"] = "somebody"
    if kind in ("id", "both"):
        req["id"] = 11
    sx.check_eq("values as given", fix.inheritance(dict(req))[0], req)
    for bad in ("nobody", "11", "ElemA2", 11):
        ok, _ = sx.attempt(lambda bad=bad: fix[bad], ValueError)
        sx.check("unknown element is refused", not ok)


def own_name(sx):
    fix = make([{"name": "ElemA", "id": 10, "p": sx.int("p", 0, 9)}])
    ok, _ = sx.attempt(lambda: fix.inheritance({"name": "ElemA", "inherit_from": "ElemA"}), ValueError)
    sx.check("element does not inherit from itself", not ok)


_db = {}


def database():
    """own reading of the shipped files"""
    if not _db:
        import yaml

        import shepherd_core
        for f in sorted((Path(shepherd_core.__file__).parent / "data_models").glob("**/*.yaml")):
            for e in yaml.safe_load(f.read_text()):
                if isinstance(e, dict) and "name" in e.get("parameters", {}):
                    _db.setdefault(e["datatype"].lower(), {})[str(e["parameters"]["name"]).lower()] = e["parameters"]
    return _db


def resolve(kind, nm):
    e = database()[kind.lower()][str(nm).lower()]
    if "inherit_from" not in e:
        return dict(e)
    r = resolve(kind, e["inherit_from"])
    r.update({k: v for k, v in e.items() if k != "inherit_from"})
    return r


def shipped(sx, kind):
    from shepherd_core.testbed_client import tb_client
    for nm, e in database()[kind.lower()].items():
        full = resolve(kind, nm)
        for req in ({"name": nm}, {"name": nm.upper()}, {"id": e["id"]}):
            sx.check_eq(f"{nm} is complete", {k: v for k, v in tb_client.try_completing_model(kind, dict(req))[0].items()
                                              if k != "name"}, {k: v for k, v in full.items() if k != "name"})
        ok, _ = sx.attempt(lambda nm=nm: tb_client.try_completing_model(kind, {"name": nm + "_"}), ValueError)
        sx.check("unknown name is refused", not ok)
    val = sx.int("value", -9, 9)
    for nm in database()[kind.lower()]:
        full = resolve(kind, nm)
        for key in [*[k for k in full if k not in ("id", "name")], "new_one"]:
            for x in (val, None):
                got = tb_client.try_completing_model(kind, {"name": "mine", "id": 1, "inherit_from": nm, key: x})[0]
                sx.check_eq(f"all values with own {key}", got, {**full, "name": "mine", "id": 1, key: x})


def model_source(sx):
    from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
    kind = "VirtualSourceConfig"
    nm = sx.choice("element", list(database()[kind.lower()]))
    full = resolve(kind, nm)
    fields = ["C_intermediate_uF", "V_intermediate_init_mV", "V_input_max_mV", "V_output_mV", "C_output_uF",
              "I_intermediate_leak_nA"]
    key = sx.choice("overridden", fields)
    val = sx.int("value", 1, 5000)
    ref = VirtualSourceConfig(name=nm)
    got = VirtualSourceConfig(name="mine", inherit_from=nm, **{key: val})
    for k in fields:
        if k == key:
            sx.check_close("explicit value", getattr(got, k), val, 1e-9)
        else:
            sx.check("inherited value", getattr(got, k) == getattr(ref, k))
            if k in full:
                sx.check("documented value", getattr(got, k) == full[k])
    sx.check("own name", got.name == "mine")


def model_harvester(sx):
    from shepherd_core.data_models.content.virtual_harvester import VirtualHarvesterConfig
    kind = "VirtualHarvesterConfig"
    nm = sx.choice("element", [k for k in database()[kind.lower()] if k != "neutral"])
    full = resolve(kind, nm)
    fields = ["voltage_mV", "interval_ms", "duration_ms", "setpoint_n", "wait_cycles", "samples_n"]
    ref = VirtualHarvesterConfig(name=nm)
    val, cyc = sx.int("value", 0, 5000), sx.int("cycles", 0, 100)
    got = VirtualHarvesterConfig(name="mine", inherit_from=nm, wait_cycles=cyc,
                                 current_limit_uA=val + 1)
    for k in fields:
        if k == "wait_cycles":
            sx.check_eq("explicit value", got.wait_cycles, cyc)
            continue
        sx.check("inherited value", getattr(got, k) == getattr(ref, k))
        if k in full:
            sx.check("documented value", getattr(got, k) == full[k])
    sx.check_close("explicit limit", got.current_limit_uA, val + 1, 1e-9)
    sx.check("own name", got.name == "mine")
