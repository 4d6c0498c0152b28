"""C24 experiments with colliding or impossible targets are rejected"""
from .xp_common import TARGETS, UNKNOWN, database, energy, firmware, host

BOUNDS = ("experiments of up to 3 targets in 1..2 groups chosen from a testbed with hosted, decommissioned, unhosted, "
          "16-bit-colliding and explicitly numbered targets and an unknown one; custom ids symbolic 16 bit, lists shorter, "
          "equal and longer than needed; every pairing of firmware and MCU")
OUTSIDE = "more than 3 targets; default firmware of MCUs without given firmware; a second firmware for a missing second MCU"
STUBS = ["database holds an additional testbed", "logging disabled"]
MODULES = ("shepherd_core.data_models.experiment", "shepherd_core.data_models.testbed")
FAKE_H5 = False
ALL = [*TARGETS, UNKNOWN]
FEW = [5001, 70537, 5004, 77, 5003, 5010]


def cases(tier):
    out = [("single", "groups", {"sizes": (1,), "custom": (0,), "pool": ALL}),
           ("pair/one-group", "groups", {"sizes": (2,), "custom": (0,), "pool": ALL}),
           ("pair/two-groups", "groups", {"sizes": (1, 1), "custom": (0, 0), "pool": ALL})]
    for s, cs in (((1,), ((1,), (2,))), ((2,), ((1,), (2,), (3,))), ((1, 1), ((1, 0), (0, 1), (1, 1), (2, 0))),
                  ((2, 1), ((2, 0), (2, 1), (0, 1), (3, 0)))):
        for c in cs:
            pool = FEW if sum(s) < 3 else FEW[:4] if tier == "quick" else FEW
            out.append((f"custom/{s}/{c}", "groups", {"sizes": s, "custom": c, "pool": pool}))
    if tier != "quick":
        out += [("triple", "groups", {"sizes": (3,), "custom": (0,), "pool": ALL}, {"budget": 1500}),
                ("triple/2", "groups", {"sizes": (2, 1), "custom": (0, 0), "pool": ALL}, {"budget": 1500})]
    out += [("firmware", "fw", {}), ("energy", "env", {}), ("config", "config", {})]
    return out


def groups(sx, sizes, custom, pool):
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    database()
    tgts = [[sx.choice(f"t{g}_{i}", pool) for i in range(n)] for g, n in enumerate(sizes)]
    cids = [[sx.int(f"c{g}_{i}", 0, 2**16 - 1) for i in range(n)] if n else None for g, n in enumerate(custom)]
    env, fw = energy(), firmware()

    def make():
        cfgs = [TargetConfig(target_IDs=t, custom_IDs=c, energy_env=env, firmware1=fw) for t, c in zip(tgts, cids)]
        return Experiment(name="xp", target_configs=cfgs)
    ok, xp = sx.attempt(make, ValueError)
    flat = [t for g in tgts for t in g]
    hosts = [host(t) for t in flat]
    good = None not in hosts and len(set(flat)) == len(flat) and len(set(hosts)) == len(hosts)
    good = good and all(c is None or len(c) >= len(t) for t, c in zip(tgts, cids))
    if good:
        nodes = []
        for t, c in zip(tgts, cids):
            nodes += [TARGETS[x][2] for x in t] if c is None else c[:len(t)]
        good = sx.both(*[sx.neg(nodes[i] == nodes[j]) for i in range(len(nodes)) for j in range(i)])
    if not ok:
        # surplus custom ids may repeat; a complete set of distinct ids is fine
        sx.check("valid experiments are accepted", sx.neg(good) if good is not False else True)
        return
    sx.check("accepted only if valid", good)
    if good is False:
        return
    sx.check("all targets in order", xp.get_target_ids() == flat)
    for g, t in enumerate(tgts):
        for i, x in enumerate(t):
            cfg = xp.get_target_config(x)
            sx.check("group of the target", cfg.target_IDs == t)
            got = cfg.get_custom_id(x)
            if cids[g] is None:
                sx.check("no custom id", got is None)
            else:
                sx.check_eq("custom id by position", got, cids[g][i])
    ok, _ = sx.attempt(lambda: xp.get_target_config(UNKNOWN), ValueError)
    sx.check("unknown target has no group", not ok)


def config(sx):
    """a group on its own: ids never run short"""
    from shepherd_core.data_models.experiment import TargetConfig
    database()
    n, m = sx.choice("targets", [1, 2, 3]), sx.choice("custom", [1, 2, 3, 4])
    t = [5001, 5004, 5010][:n]
    c = [sx.int(f"c{i}", 0, 2**16 - 1) for i in range(m)]
    distinct = sx.both(*[sx.neg(c[i] == c[j]) for i in range(m) for j in range(i)])
    ok, cfg = sx.attempt(lambda: TargetConfig(target_IDs=t, custom_IDs=c, energy_env=energy(), firmware1=firmware()),
                         ValueError)
    if ok:
        sx.check("enough custom ids", m >= n)
        for i, x in enumerate(t):
            sx.check_eq("id by position", cfg.get_custom_id(x), c[i])
        sx.check("no id for other targets", cfg.get_custom_id(77) is None)
    else:
        sx.check("refused only if short or repeated", sx.neg(sx.both(m >= n, distinct)))


def fw(sx):
    """firmware has to match the controllers of every target"""
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    database()
    f1 = sx.choice("fw1", ["nRF52", "MSP430FR"])
    f2 = sx.choice("fw2", [None, "nRF52", "MSP430FR"])
    t = sx.choice("targets", [[5001], [5003], [5001, 5003], [5003, 5001], [5010, 5001], [77, 5004]])
    if t == [5001, 5003] or t == [5003, 5001]:
        sx.cover("mixed")
    if f2 is not None:
        sx.assume(any(TARGETS[x][3] for x in t))
    fit = f1 == "nRF52" and f2 != "nRF52"
    kw = {} if f2 is None else {"firmware2": firmware(f2, "second")}
    ids = [sx.int(f"c{i}", 0, 2**16 - 1) for i in range(len(t))]
    if len(ids) == 2:
        sx.assume(sx.neg(ids[0] == ids[1]))

    def make():
        cfg = TargetConfig(target_IDs=t, custom_IDs=ids, energy_env=energy(), firmware1=firmware(f1), **kw)
        return Experiment(name="xp", target_configs=[cfg])
    ok, _ = sx.attempt(make, ValueError)
    sx.check("accepted exactly if it fits", ok == fit)


def env(sx):
    from shepherd_core.data_models.experiment import TargetConfig
    database()
    valid = sx.bool("valid")
    ok, _ = sx.attempt(lambda: TargetConfig(target_IDs=[5001], energy_env=energy(valid=valid), firmware1=firmware()),
                       ValueError)
    sx.check("accepted exactly if the environment is valid", sx.iff(valid, ok))
