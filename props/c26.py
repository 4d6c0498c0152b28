"""C26 testbed lookup finds the one active host of a target"""
from datetime import datetime

from .tb_common import DAY, IPS, MACS, cape, observer, target, testbed

BOUNDS = ("testbeds of 2 observers (thorough 3), every combination of active / decommissioned observers and capes, missing "
          "capes, missing / active / inactive targets on both ports, symbolic query; uniqueness: "
          "3 observers, each identity symbolic, objects differing in their other fields; all combinations of two clashes")
OUTSIDE = "more than 3 observers; MAC addresses spelled differently; two targets of one observer sharing an id"
STUBS = ["logging disabled"]
MODULES = ("shepherd_core.data_models.testbed",)
FAKE_H5 = False
TIME = True


def cases(tier):
    out = [(f"lookup/{a}", "lookup", {"n": 2, "first": a}) for a in ("none", "a", "b", "both")]
    if tier != "quick":
        out += [(f"lookup3/{a}", "lookup", {"n": 3, "first": a}, {"budget": 900}) for a in ("none", "a", "b", "both")]
    out += [("ports", "ports", {}), ("faulty", "faulty", {}), ("clash/pairs", "pairs", {})]
    out += [(f"unique/{w}", "unique", {"what": w}) for w in
            ("id", "cape", "target_a", "target_b", "target_cross", "ip", "mac", "eth_port")]
    out += [("unique/created", "same_object", {}), ("prep", "prep", {}), ("shipped", "shipped", {})]
    return out


def lookup(sx, n, first):
    tid = [5004, 5001, 5003, 5002, 5006, 5005][:2 * n]
    obs, facts = [], []
    for k in range(n):
        has = first if k == 0 else sx.choice(f"has{k}", ["none", "a", "both"] if n > 2 else ["none", "a", "b", "both"])
        act = sx.bool(f"active{k}")
        with_cape = True if has != "none" else sx.flag(f"cape{k}")
        cact = sx.bool(f"cape_active{k}") if with_cape else False
        kw, hosted = {}, []
        for p, t in (("a", tid[2 * k]), ("b", tid[2 * k + 1])):
            if has in (p, "both"):
                ta = sx.bool(f"{p}_active{k}")
                kw[f"target_{p}"] = target(t, ta)
                hosted.append((t, ta))
        if with_cape:
            kw["cape"] = cape(100 + k, cact)
        obs.append(observer(k, active=act, **kw))
        facts.append((act, cact if with_cape else False, hosted))
    tb = testbed(obs)
    q = sx.int("query", 5000, 5020)
    ok, got = sx.attempt(lambda: tb.get_observer(q), ValueError, KeyError)
    host = [sx.both(a, c, sx.either(False, *[sx.both(t == q, ta) for t, ta in hosted])) for a, c, hosted in facts]
    if ok:
        k = [i for i in range(n) if got.id == 7000 + i]
        sx.check("an observer of the testbed", len(k) == 1)
        sx.check("active host of the target", host[k[0]] if k else False)
        sx.check("target is on it", sx.both(got.has_target(q)))
    else:
        for k in range(n):
            sx.check("no active host when refused", sx.neg(host[k]))


def ports(sx):
    """port and object belong to that id"""
    from shepherd_core.data_models.testbed.cape import TargetPort
    a, b = sx.choice("ids", [(5001, 5002), (5002, 5001), (5000, 5020)])
    has = sx.choice("has", ["none", "a", "b", "both"])
    aa, ba = sx.bool("a_active"), sx.bool("b_active")
    kw = {}
    if has in ("a", "both"):
        kw["target_a"] = target(a, aa)
    if has in ("b", "both"):
        kw["target_b"] = target(b, ba)
    o = observer(0, cape=cape(100), **kw)
    q = sx.int("query", 5000, 5020)
    on_a = sx.both(has in ("a", "both"), q == a, aa)
    on_b = sx.both(has in ("b", "both"), q == b, ba)
    sx.check("hosted", sx.iff(sx.either(on_a, on_b), o.has_target(q)))
    ok, p = sx.attempt(lambda: o.get_target_port(q), KeyError, ValueError)
    ok2, t = sx.attempt(lambda: o.get_target(q), KeyError, ValueError)
    sx.check("both or none", ok == ok2)
    if ok and ok2:
        sx.check("port a", sx.iff(on_a, p == TargetPort.A))
        sx.check("port b", sx.iff(on_b, p == TargetPort.B))
        sx.check("object of that id", t.id == q)
        sx.check("object is active", t.active)
    else:
        sx.check("not hosted", sx.neg(sx.either(on_a, on_b)))


def faulty(sx):
    """targets need a cape"""
    c, a, b = sx.flag("cape"), sx.flag("a"), sx.flag("b")
    kw = {}
    if c:
        kw["cape"] = cape(100, sx.bool("cape_active"))
    if a:
        kw["target_a"] = target(5001, sx.bool("a_active"))
    if b:
        kw["target_b"] = target(5002, sx.bool("b_active"))
    act = sx.bool("active")
    ok, _ = sx.attempt(lambda: observer(0, active=act, **kw), ValueError)
    sx.check("accepted exactly if complete", ok == (c or not (a or b)))


def unique(sx, what):
    """three observers, one identity symbolic"""
    if what in ("ip", "mac", "eth_port"):
        opts = {"ip": IPS, "mac": MACS, "eth_port": ("A1", "B1", "A11")}[what]
        val = [sx.choice(f"v{k}", opts[:3]) for k in range(3)]
        obs = [observer(k, **{what: val[k]}) for k in range(3)]
    else:
        lo = 7000 if what == "id" else 5000
        val = [sx.int(f"v{k}", lo, lo + 3) for k in range(3)]
        if what == "id":
            obs = [observer(k, id=val[k]) for k in range(3)]
        elif what == "cape":
            obs = [observer(k, cape=cape(val[k], k != 1, comment=f"c{k}")) for k in range(3)]
        elif what == "target_cross":
            obs = [observer(0, cape=cape(100), target_b=target(val[0])),
                   observer(1, cape=cape(101), target_a=target(val[1])),
                   observer(2, cape=cape(102), target_b=target(val[2], False))]
        else:
            obs = [observer(k, cape=cape(100 + k), **{what: target(val[k], k != 1, comment=f"c{k}")}) for k in range(3)]
    ok, _ = sx.attempt(lambda: testbed(obs), ValueError)
    differ = sx.both(*[sx.neg(val[i] == val[j]) for i in range(3) for j in range(i)])
    sx.check("accepted exactly if unique", sx.iff(differ, ok))


def pairs(sx):
    """any combination of clashes between two observers"""
    kinds = ("id", "ip", "mac", "eth_port", "cape", "target")
    same = {k: sx.flag(k) for k in kinds}

    def o(k):
        i = {x: (0 if same[x] else k) for x in kinds}
        port = "target_a" if k == 0 else "target_b"
        return observer(k, id=7000 + i["id"], ip=IPS[i["ip"]], mac=MACS[i["mac"]], eth_port=f"p{i['eth_port']}",
                        cape=cape(100 + i["cape"]), **{port: target(5000 + i["target"])})
    ok, _ = sx.attempt(lambda: testbed([o(0), o(1)]), ValueError)
    sx.check("accepted exactly if nothing clashes", ok == (not any(same.values())))
    ok, _ = sx.attempt(lambda: testbed([o(0), o(1)], shared_storage=False), ValueError)
    sx.check("only shared storage", not ok)


def same_object(sx):
    """the same cape / target described at different moments is still the same one"""
    kind = sx.choice("kind", ["cape", "target"])
    late = datetime(2024, 1, 2 + sx.choice("days", [0, 1]))
    x, y = sx.int("x", 5000, 5002), sx.int("y", 5000, 5002)
    a = cape(x) if kind == "cape" else cape(100)
    b = cape(y, created=late) if kind == "cape" else cape(101)
    kwa = {} if kind == "cape" else {"target_a": target(x)}
    kwb = {} if kind == "cape" else {"target_a": target(y, created=late)}
    ok, _ = sx.attempt(lambda: testbed([observer(0, cape=a, **kwa), observer(1, cape=b, **kwb)]), ValueError)
    sx.check("accepted exactly if unique", sx.iff(sx.neg(x == y), ok))


def prep(sx):
    d = sx.td("prep", -1000, 1000)
    ok, tb = sx.attempt(lambda: testbed([observer(0)], prep_duration=d), ValueError)
    if ok:
        sx.check("negative preparation is refused", tb.prep_duration.total_seconds() >= 0)
        sx.check_eq("kept", tb.prep_duration, d)
    else:
        sx.check("refused only if negative", d.total_seconds() < 0)


def shipped(sx):
    """the real testbed: every target of the database is found where it is listed"""
    from shepherd_core.data_models.testbed import Target, Testbed
    from shepherd_core.testbed_client import tb_client
    tb = Testbed()
    t = sx.choice("target", list(tb_client.query_ids("Target")))
    ok, o = sx.attempt(lambda: tb.get_observer(t), ValueError)
    hosts = [x for x in tb.observers if x.active and x.cape is not None and x.cape.active and
             any(y is not None and y.id == t and y.active for y in (x.target_a, x.target_b))]
    sx.check("at most one host", len(hosts) <= 1)
    sx.check("found exactly if hosted", ok == bool(hosts))
    if ok and hosts:
        sx.check("that host", o.id == hosts[0].id and o.get_target(t).id == t == Target(id=t).id)


_ = DAY
