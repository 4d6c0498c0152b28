"""C25 testbed tasks reproduce the experiment on the right observer"""
from datetime import timedelta, timezone

from .xp_common import TARGETS, energy, firmware, host, the_testbed

BOUNDS = ("1..3 targets in 1..2 groups on hosts with one or two ports; custom ids, start time, duration, preparation time, "
          "sample rate, mask, baud rate, programming voltage and data rate symbolic; each optional feature present or not")
OUTSIDE = "more than 3 targets; GPIO actuation (not implemented there); names of directories"
STUBS = ["clock stands still during symbolic execution", "database holds an additional testbed", "logging disabled"]
MODULES = ("shepherd_core.data_models.task", "shepherd_core.data_models.experiment", "shepherd_core.data_models.testbed")
FAKE_H5 = False
TIME = True

PORT = {5001: None, 70537: "A", 5003: "B"}
LAYOUTS = {"one": ((5001,),), "port_b": ((5003,),), "pair": ((70537, 5004),), "two": ((5010,), (5003,)),
           "three": ((77, 5003), (5010,)), "three_b": ((5010,), (5004, 5001))}


def cases(tier):
    out = [(f"xp/{k}/{c}", "xp", {"groups": k, "custom": c, "feat": "few"}) for k in LAYOUTS for c in ("none", "all", "last")
           if c != "last" or len(LAYOUTS[k]) > 1]
    out += [(f"features/{k}", "xp", {"groups": k, "custom": "none", "feat": "all"}) for k in ("one", "two")]
    out += [("programmer", "programmer", {}), ("start/aware", "start", {"aware": True}),
            ("start/naive", "start", {"aware": False}), ("start/none", "start", {"aware": None}),
            ("default-testbed", "default_tb", {})]
    return out


def port(t):
    o = host(t)
    same = [x for x in TARGETS if TARGETS[x][0] == o]
    if len(same) > 1:
        return "AB"[same.index(t)]
    return "B" if o % 2 == 0 else "A"


def obs_name(t):
    return f"obs{host(t)}"


def xp(sx, groups, custom, feat):
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.data_models.experiment import Experiment, GpioTracing, PowerTracing, SystemLogging, TargetConfig
    from shepherd_core.data_models.task import TestbedTasks
    tb = the_testbed()
    groups = LAYOUTS[groups]
    cfgs, want, ids = [], [], []
    for g, tgts in enumerate(groups):
        last = g == len(groups) - 1
        has_c = custom == "all" or (custom == "last" and last)
        cids = [sx.int(f"c{g}_{i}", 20000, 60000) for i in range(len(tgts))] if has_c else None
        ids += cids or []
        sx.assume(sx.both(True, *[sx.neg(ids[i] == ids[j]) for i in range(len(ids)) for j in range(i)]))
        rich = feat == "all"
        pt = PowerTracing(samplerate=sx.int(f"rate{g}", 10, 100_000)) if not rich or sx.flag(f"power{g}") else None
        gt = (GpioTracing(mask=sx.int(f"mask{g}", 1, 1023), uart_baudrate=sx.int(f"baud{g}", 2400, 921600),
                          uart_decode=sx.bool(f"uart{g}"))
              if (rich and sx.flag(f"gpio{g}")) or (not rich and g == 0) else None)
        vs = VirtualSourceConfig(name=["BQ25504", "dio_cap"][g], V_output_mV=sx.int(f"vout{g}", 1800, 3600))
        two = sx.flag(f"two{g}") if rich else g == 1
        f1, f2 = firmware("nRF52", f"first{g}"), firmware("MSP430FR", f"second{g}") if two else None
        if not all(TARGETS[t][3] for t in tgts):
            two, f2 = False, None
        env = energy(f"env{g}")
        kw = {"firmware2": f2} if two else {}
        cfgs.append(TargetConfig(target_IDs=list(tgts), custom_IDs=cids, energy_env=env, virtual_source=vs, firmware1=f1,
                                 power_tracing=pt, gpio_tracing=gt, **kw))
        for i, t in enumerate(tgts):
            want.append({"t": t, "node": cids[i] if has_c else TARGETS[t][2], "env": env, "vs": vs, "pt": pt, "gt": gt,
                         "fw": (f1, f2)})
    start = sx.now() + sx.td("start", 60, 10**6)
    dur = sx.td("duration", 0, 10**6)
    abort, owner, mail = sx.bool("abort"), sx.int("owner", 0, 10**9), sx.bool("mail")
    log = SystemLogging(dmesg=sx.bool("dmesg"), ptp=sx.bool("ptp"))
    e = Experiment(name="my xp", target_configs=cfgs, time_start=start, duration=dur, abort_on_error=abort,
                   owner_id=owner, email_results=mail, sys_logging=log)
    tasks = TestbedTasks.from_xp(e, tb)
    sx.check("name", tasks.name == "my xp")
    sx.check_eq("owner", tasks.owner_id, owner)
    sx.check_eq("email", tasks.email_results, mail)
    sx.check("one set per target", len(tasks.observer_tasks) == len(want))
    names = [o.observer for o in tasks.observer_tasks]
    sx.check("one set per observer", sorted(names) == sorted(obs_name(w["t"]) for w in want))
    files, outs = [], []
    for w in want:
        name = obs_name(w["t"])
        o = tasks.get_observer_tasks(name)
        sx.check("set of that observer", o is not None and o.observer == name)
        if o is None:
            continue
        sx.check_eq("owner of the set", o.owner_id, owner)
        sx.check_eq("abort", o.abort_on_error, abort)
        sx.check_eq("preparation is early", o.time_prep, start - tb.prep_duration)
        for k, (mod, prog) in enumerate(((o.fw1_mod, o.fw1_prog), (o.fw2_mod, o.fw2_prog))):
            f = w["fw"][k]
            if f is None:
                sx.check("no task without firmware", mod is None and prog is None)
                continue
            sx.check("tasks for that firmware", mod is not None and prog is not None)
            if mod is None or prog is None:
                continue
            sx.check("firmware", mod.data == f.data and mod.data_type == f.data_type)
            sx.check_eq("node id", mod.custom_id, w["node"])
            sx.check("programs what was modified", mod.firmware_file == prog.firmware_file)
            files.append(str(mod.firmware_file))
            sx.check("port", prog.target_port == port(w["t"]))
            sx.check("controller", prog.mcu_port == k + 1 and prog.mcu_type == f.mcu.name and
                     prog.protocol == f.mcu.prog_protocol)
            sx.check("programmer", prog.voltage == f.mcu.prog_voltage and prog.datarate == f.mcu.prog_datarate)
        em = o.emulation
        sx.check("emulation", em is not None)
        if em is None:
            continue
        sx.check("environment", em.input_path == w["env"].data_path)
        outs.append(str(em.output_path))
        sx.check_eq("starts as planned", em.time_start, start)
        sx.check_eq("duration", em.duration, dur)
        sx.check_eq("abort on error", em.abort_on_error, abort)
        sx.check("ports", em.io_port == port(w["t"]) and em.pwr_port == port(w["t"]))
        sx.check("io", sx.iff(w["gt"] is not None, em.enable_io))
        same(sx, "source", em.virtual_source, w["vs"], ("name", "V_output_mV", "C_intermediate_uF", "V_input_max_mV"))
        same(sx, "power", em.power_tracing, w["pt"], ("samplerate", "delay", "duration"))
        same(sx, "gpio", em.gpio_tracing, w["gt"], ("mask", "uart_baudrate", "uart_decode"))
        same(sx, "log", em.sys_logging, log, ("dmesg", "ptp", "shepherd"))
    sx.check("own firmware files", len(files) == len(set(files)))
    sx.check("own output files", len(outs) == len(set(outs)))
    paths = tasks.get_output_paths()
    sx.check("list of outputs", sorted(paths) == sorted(names) and sorted(str(p) for p in paths.values()) == sorted(outs))


def same(sx, label, got, want, fields):
    sx.check(f"{label} is there", (got is None) == (want is None))
    if got is not None and want is not None:
        for f in fields:
            sx.check_eq(f"{label}: {f}", getattr(got, f), getattr(want, f))


def programmer(sx):
    """parameters of the controller, within all its limits"""
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    from shepherd_core.data_models.task import TestbedTasks
    from shepherd_core.data_models.testbed import MCU
    tb = the_testbed()
    v, d = sx.real("voltage", 1, 5), sx.int("datarate", 1, 10**6)
    prot = sx.choice("protocol", ["SWD", "SBW", "JTAG", "UART"])
    mcu = MCU(id=1001, name="nRF52", prog_voltage=v, prog_datarate=d, prog_protocol=prot)
    f = firmware(mcu, "x")
    e = Experiment(name="xp", target_configs=[TargetConfig(target_IDs=[5003], energy_env=energy(), firmware1=f)])
    o = TestbedTasks.from_xp(e, tb).observer_tasks[0]
    sx.check_close("voltage", o.fw1_prog.voltage, v, 1e-9)
    sx.check_eq("datarate", o.fw1_prog.datarate, d)
    sx.check("protocol", o.fw1_prog.protocol == prot)


def start(sx, aware):
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    from shepherd_core.data_models.task import TestbedTasks
    prep = sx.td("prep", 0, 10**5)
    real = the_testbed()
    tb = type(real)(**{**real.model_dump(), "prep_duration": prep})
    off = sx.td("start", 60, 10**6)
    t = None if aware is None else sx.now() + off
    if aware is False:
        t = t.replace(tzinfo=None)
    elif aware and sx.flag("other_zone"):
        t = t.astimezone(timezone(timedelta(hours=5, minutes=30)))
    dur = sx.td("duration", 0, 10**6) if sx.flag("has_duration") else None
    e = Experiment(name="xp", time_start=t, duration=dur,
                   target_configs=[TargetConfig(target_IDs=[5003], energy_env=energy(), firmware1=firmware())])
    o = TestbedTasks.from_xp(e, tb).observer_tasks[0]
    if aware is None:
        sx.check("as soon as possible", o.emulation.time_start is None)
    else:
        inst = t if aware else t.replace(tzinfo=timezone.utc)
        sx.check_eq("same instant", o.emulation.time_start, inst)
        pr = o.time_prep if aware else o.time_prep.replace(tzinfo=timezone.utc)
        sx.check_eq("preparation", inst - pr, prep)
    if dur is None:
        sx.check("till the end", o.emulation.duration is None)
    else:
        sx.check_eq("duration", o.emulation.duration, dur)


def default_tb(sx):
    """without explicit testbed the one of the database is used"""
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    from shepherd_core.data_models.task import TestbedTasks
    the_testbed()
    t = sx.choice("target", [5001, 5003, 5010, 5004])
    c = sx.int("c", 0, 65535)
    e = Experiment(name="xp", target_configs=[TargetConfig(target_IDs=[t], custom_IDs=[c], energy_env=energy(),
                                                           firmware1=firmware())])
    o = TestbedTasks.from_xp(e).observer_tasks
    sx.check("observer", len(o) == 1 and o[0].observer == obs_name(t))
    sx.check_eq("id", o[0].fw1_mod.custom_id, c)
    sx.check("port", o[0].emulation.pwr_port == port(t))
