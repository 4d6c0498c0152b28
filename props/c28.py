"""C28 storing a model to file and loading it restores the same model"""
from datetime import date, datetime, timedelta, timezone
from pathlib import Path, PureWindowsPath

from .tb_common import DAY, cape, mcu, observer, target, testbed
from .xp_common import database, energy, firmware

BOUNDS = ("every value of the numeric, boolean and time fields listed per model (times in microseconds, durations "
          "0..12 days, instants within 12 days of the present), each optional part present "
          "and absent, minimal and complete file, plain text / path / address fields from a list of awkward values")
OUTSIDE = ("text fields beyond the listed values (yaml library), secrets (user accounts), inventories, hash of models; in the minimal file "
           "generated ids and creation times that were never set are drawn anew")
STUBS = ["yaml documents with symbolic values: the tag and text of each value come from the representers of /repo, reading a scalar "
         "of a yaml type back gives the same value (property of the yaml library)", "clock stands still during symbolic execution"]
MODULES = ("shepherd_core", "shepherd_core.data_models.task", "shepherd_core.data_models.experiment", "shepherd_core.data_models.testbed",
           "shepherd_core.data_models.content", "shepherd_core.data_models.base.cal_measurement")
FAKE_H5 = False
TIME = True
YAML = True
TEXTS = ("null", "yes", "1e3", "0x10", "12.30", "2020-01-01", "-", "#x", "~", "a 'b'", "1_000", "=", "é", "010", ".inf", "[a]", "{}")
GENERATED = ("id", "created", "updated_last", "cal_date")


def cases(tier):
    out = []
    for name in MODELS:
        out += [(f"{name}/{'minimal' if m else 'complete'}", "trip", {"name": name, "minimal": m}) for m in (True, False)]
    out += [("type", "wrong_type", {}), ("place", "place", {}), ("twice", "twice", {})]
    return out


# ------------------------------------------------------------------------------ models
def dur(sx, name, lo=0):
    return sx.td(name, lo, 10**6)


def opt(sx, name, fn):
    return fn() if sx.flag(f"has_{name}") else None


def power(sx, pre=""):
    from shepherd_core.data_models.experiment import PowerTracing
    kw = {"delay": dur(sx, pre + "delay"), "duration": opt(sx, pre + "dur", lambda: dur(sx, pre + "duration"))}
    dc, dv = sx.bool(pre + "dc"), sx.bool(pre + "dv")
    sx.assume(sx.neg(sx.both(dc, dv)))
    return PowerTracing(intermediate_voltage=sx.bool(pre + "iv"), discard_current=dc, discard_voltage=dv, **kw)


def gpio(sx, pre=""):
    from shepherd_core.data_models.experiment import GpioTracing
    from shepherd_core.data_models.testbed import GPIO
    return GpioTracing(mask=sx.int(pre + "mask", 1, 1023), delay=dur(sx, pre + "gdelay"),
                       duration=opt(sx, pre + "gdur", lambda: dur(sx, pre + "gduration")), uart_decode=sx.bool(pre + "ud"),
                       uart_baudrate=sx.int(pre + "baud", 2400, 921600),
                       gpios=opt(sx, pre + "gpios", lambda: [GPIO(id=1001), GPIO(name="GPIO7")]))


def logging(sx):
    from shepherd_core.data_models.experiment import SystemLogging
    return SystemLogging(dmesg=sx.bool("dmesg"), ptp=sx.bool("ptp"), shepherd=sx.bool("shp"))


def event(sx, pre=""):
    from shepherd_core.data_models.experiment import GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    g = GPIO(name="GPIO0")
    return GpioEvent(delay=sx.real(pre + "edelay", 1e-6, 1e6), gpio=g, level=sx.choice(pre + "level", ["L", "H", "X"]),
                     period=sx.real(pre + "period", 1e-5, 1e6), count=sx.int(pre + "count", 1, 4096))


def actuation(sx):
    from shepherd_core.data_models.experiment import GpioActuation
    return GpioActuation(events=[event(sx, "a"), event(sx, "b")])


def instant(sx, name="t"):
    t = sx.now() + sx.td(name, 60, 10**6)
    form = sx.choice(name + "_form", ["utc", "zone", "naive"])
    return {"utc": lambda: t, "zone": lambda: t.astimezone(timezone(timedelta(hours=-7))), "naive": lambda: t.replace(tzinfo=None)}[form]()


def harvest(sx):
    from shepherd_core.data_models.task import HarvestTask
    return HarvestTask(output_path=Path("/tmp/out.h5"), time_start=opt(sx, "start", lambda: instant(sx)),
                       duration=opt(sx, "taskdur", lambda: dur(sx, "taskduration")), verbose=sx.int("verbose", 0, 4),
                       force_overwrite=sx.bool("force"), abort_on_error=sx.bool("abort"), use_cal_default=sx.bool("cal"))


def harvest_power(sx):
    from shepherd_core.data_models.task import HarvestTask
    return HarvestTask(output_path=Path("/tmp/out.h5"), power_tracing=power(sx), output_compression=sx.choice("comp", [None, "1", "lzf"]))


def emulate(sx):
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.data_models.task import EmulationTask
    return EmulationTask(
        input_path=Path("/tmp/in.h5"), output_path=opt(sx, "out", lambda: Path("./a b/out.h5")), enable_io=sx.bool("io"),
        io_port=sx.choice("io_port", ["A", "B"]), pwr_port=sx.choice("pwr_port", ["A", "B"]),
        voltage_aux=sx.choice("aux", [lambda: "main", lambda: "buffer", lambda: sx.real("v", 0, 4.5)])(),
        virtual_source=VirtualSourceConfig(inherit_from="BQ25504", C_intermediate_uF=sx.real("cap", 0, 1e5), id=8, created=DAY, updated_last=DAY))


def emulate_parts(sx):
    from shepherd_core.data_models.experiment import GpioTracing
    from shepherd_core.data_models.task import EmulationTask
    return EmulationTask(input_path=Path("/tmp/in.h5"), time_start=sx.now() + sx.td("t", 60, 10**6), duration=dur(sx, "d"),
                         power_tracing=opt(sx, "pwr", lambda: power(sx)), gpio_tracing=opt(sx, "gpio", lambda: GpioTracing(mask=sx.int("mask", 1, 1023), delay=dur(sx, "gdelay"))),
                         sys_logging=opt(sx, "log", lambda: logging(sx)))


def programming(sx):
    from shepherd_core.data_models.task import ProgrammingTask
    return ProgrammingTask(firmware_file=Path("/tmp/fw.hex"), mcu_type="nrf52", protocol=sx.choice("prot", ["SWD", "SBW", "UART"]),
                           target_port=sx.choice("port", ["A", "B"]), mcu_port=sx.int("mcu", 1, 2), voltage=sx.real("v", 1, 5),
                           datarate=sx.int("rate", 1, 1_000_000), simulate=sx.bool("sim"), verbose=sx.int("verbose", 0, 4))


def modify(sx):
    from shepherd_core.data_models.task import FirmwareModTask
    how = sx.choice("how", ["path_elf", "path_hex", "text", "elf"])
    data = {"path_elf": Path("/tmp/a.elf"), "path_hex": Path("b.hex"), "text": "/tmp/c.elf", "elf": "KLUv/SAFKQAAaGVsbG8="}[how]
    return FirmwareModTask(data=data, data_type="path_elf" if how == "text" else how, firmware_file=Path("/tmp/out.elf"),
                           custom_id=opt(sx, "id", lambda: sx.int("id", 0, 65535)), verbose=sx.int("verbose", 0, 4))


def observer_tasks(sx):
    from shepherd_core.data_models.task import ObserverTasks
    return ObserverTasks(observer="obs 1", owner_id=opt(sx, "owner", lambda: sx.int("owner", 0, 2**128 - 1)), time_prep=instant(sx, "prep"),
                         root_path=Path("/var/x"), abort_on_error=sx.bool("abort"),
                         fw1_mod=opt(sx, "fw1", lambda: modify_plain(sx)), fw2_prog=opt(sx, "fw2p", lambda: programming_plain(sx)))


def modify_plain(sx):
    from shepherd_core.data_models.task import FirmwareModTask
    return FirmwareModTask(data=Path("/tmp/a.elf"), data_type="path_elf", firmware_file=Path("/tmp/out.elf"), custom_id=sx.int("id", 0, 65535))


def programming_plain(sx):
    from shepherd_core.data_models.task import ProgrammingTask
    return ProgrammingTask(firmware_file=Path("/tmp/fw.hex"), mcu_type="nrf52", protocol="SWD", voltage=sx.real("v", 1, 5))


def testbed_tasks(sx):
    from shepherd_core.data_models.task import EmulationTask, ObserverTasks, TestbedTasks
    emu = EmulationTask(input_path=Path("/tmp/in.h5"), duration=dur(sx, "d"), time_start=sx.now() + sx.td("t", 60, 10**6))
    obs = [ObserverTasks(observer=f"o{i}", owner_id=3, time_prep=sx.now() - sx.td(f"prep{i}", 0, 10**6), root_path=Path("/var/x"),
                         abort_on_error=sx.bool(f"abort{i}"), emulation=emu if i else None) for i in range(2)]
    return TestbedTasks(name="tbt", observer_tasks=obs, email_results=sx.bool("mail"), owner_id=sx.int("owner", 0, 2**128 - 1))


def experiment(sx):
    from shepherd_core.data_models.experiment import Experiment
    return Experiment(name="xp", id=33, created=DAY, target_configs=[group(sx)], time_start=opt(sx, "start", lambda: instant(sx)),
                      duration=opt(sx, "xpdur", lambda: dur(sx, "xpduration")), abort_on_error=sx.bool("abort"), email_results=sx.bool("mail"),
                      owner_id=opt(sx, "owner", lambda: sx.int("owner", 0, 2**128 - 1)))


def group(sx, **kw):
    from shepherd_core.data_models.experiment import TargetConfig
    database()
    fix = {"created": DAY, "updated_last": DAY}
    return TargetConfig(target_IDs=[5003, 5001], custom_IDs=[sx.int("c0", 0, 60000), sx.int("c1", 60001, 65535)],
                        energy_env=energy(id=5, **fix), firmware1=firmware(id=6, data=Path("/tmp/a.elf"), **fix), **kw)


def group_features(sx):
    what = sx.choice("what", ["none", "power", "gpio"])
    return group(sx, power_tracing=power(sx) if what == "power" else None, gpio_tracing=gpio(sx) if what == "gpio" else None)


def content_times(sx):
    form = sx.choice("form", ["naive", "utc", "zone"])
    t = sx.now() + sx.td("made", -10**6, 10**6)
    t = {"naive": lambda: t.replace(tzinfo=None), "utc": lambda: t, "zone": lambda: t.astimezone(timezone(timedelta(hours=5.5)))}[form]()
    return {"id": sx.choice("id", [0, 2**128 - 1, "c7b6b9a0-8f2c-4b6e-9a52-0123456789ab"]), "created": t, "updated_last": t + sx.td("upd", 0, 10**6)}


def env(sx):
    from shepherd_core.data_models.content import EnergyEnvironment
    return EnergyEnvironment(name="env", data_path=Path("/tmp/x.h5"), data_type=sx.choice("dt", ["ivsample", "ivcurve", "isc_voc"]),
                             duration=sx.real("dur", 1e-3, 1e7), energy_Ws=sx.real("e", 1e-9, 1e7), valid=sx.bool("valid"),
                             data_local=sx.bool("local"), indoor=opt(sx, "indoor", lambda: sx.bool("indoor")), **content_times(sx))


def fw(sx):
    from shepherd_core.data_models.content import Firmware
    how = sx.choice("how", ["path_elf", "text", "hex"])
    data = {"path_elf": Path("/tmp/a.elf"), "text": "/tmp/c.elf", "hex": B64}[how]
    return Firmware(name="fw", mcu=mcu(), data=data, data_type="path_elf" if how == "text" else how, data_local=sx.bool("local"),
                    id=4, created=DAY, updated_last=DAY)


B64 = "KLUv/SAFKQAAaGVsbG8="  # "hello"


def vharvester(sx):
    from shepherd_core.data_models.content import VirtualHarvesterConfig
    vmin, vmax = sx.real("vmin", 0, 2000), sx.real("vmax", 3000, 5000)
    return VirtualHarvesterConfig(inherit_from=sx.choice("base", ["mppt_opt", "cv20", "mppt_po"]), voltage_min_mV=vmin, voltage_max_mV=vmax,
                                  current_limit_uA=sx.real("lim", 1, 50000), setpoint_n=sx.real("set", 0, 1), rising=sx.bool("rise"),
                                  interval_ms=sx.real("iv", 0.01, 1e6), wait_cycles=sx.int("wait", 0, 100), id=4, created=DAY, updated_last=DAY)


def vsource(sx):
    from shepherd_core.data_models.content import VirtualSourceConfig
    return VirtualSourceConfig(
        inherit_from=sx.choice("base", ["BQ25570", "direct", "dio_cap"]), C_intermediate_uF=sx.real("cap", 0, 1e5), V_output_mV=sx.real("vout", 0, 5000),
        I_intermediate_leak_nA=sx.real("leak", 0, 4e9), immediate_pwr_good_signal=sx.bool("now"), LUT_output_I_min_log2_nA=sx.int("lut", 1, 20),
        LUT_output_efficiency=[sx.real(f"eff{i}", 0, 1) for i in range(12)], interval_startup_delay_drain_ms=sx.real("drain", 0, 1e4),
        id=4, created=DAY, updated_last=DAY)


def cal_pair(sx, n):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    return CalibrationPair(gain=sx.real(f"gain{n}", 1e-12, 1e6), offset=sx.real(f"off{n}", -1e6, 1e6))


def cal_series(sx):
    from shepherd_core.data_models.base.calibration import CalibrationSeries
    return CalibrationSeries(voltage=cal_pair(sx, 0), current=cal_pair(sx, 1))


def cal_cape(sx):
    from shepherd_core.data_models.base.calibration import CalibrationCape, CalibrationEmulator, CalibrationHarvester, CapeData
    return CalibrationCape(emulator=CalibrationEmulator(dac_V_A=cal_pair(sx, 0), adc_C_B=cal_pair(sx, 1)),
                           harvester=CalibrationHarvester(adc_C_Hrv=cal_pair(sx, 2)), host=opt(sx, "host", lambda: "me"),
                           cape=opt(sx, "cape", lambda: CapeData(serial_number=sx.choice("sn", ["007", "1e3", "x"]), cal_date="2020-01-01")))


def cal_measure(sx):
    from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape, CalMeasurementHarvester, CalMeasurementPair
    n = iter(range(100))
    ps = lambda: [CalMeasurementPair(shepherd_raw=sx.real(f"r{next(n)}", 1, 1e5), reference_si=sx.real(f"s{next(n)}", -5, 5)) for _ in range(2)]  # noqa: E731
    return CalMeasurementCape(harvester=CalMeasurementHarvester(dac_V_Hrv=ps(), dac_V_Sim=ps(), adc_V_Sense=ps(), adc_C_Hrv=ps()))


def site(sx):
    return testbed([observer(0, cape=cape(3), target_a=target(77))], prep_duration=dur(sx, "prep"),
                   url=sx.choice("url", [None, "http://a.bc/d?e=f", "https://10.0.0.1:8080"]))


def node(sx):
    kw = {}
    if sx.flag("seen"):
        kw["alive_last"] = sx.now() - sx.td("ago", 0, 10**6)
    return observer(0, ip=sx.choice("ip", ["10.0.0.1", "fe80::1", "2001:db8::ff"]), latitude=sx.real("lat", -90, 90), active=sx.bool("act"),
                    longitude=sx.real("lon", -180, 180), target_b=target(77), cape=cape(3), **kw)


def board(sx):
    return cape(3, sx.bool("act"), created=sx.choice("made", [DAY, date(2024, 2, 29), datetime(2024, 1, 1, 12, 30, 5, 17)]),
                calibrated=sx.choice("cal", [None, date(2024, 2, 29), datetime(2024, 2, 29, 1, 1, 1, tzinfo=timezone.utc)]))


def dut(sx):
    return target(77, sx.bool("act"), testbed_id=sx.int("tbid", 0, 65535), mcu2=opt(sx, "mcu", mcu))


def words(sx):
    from shepherd_core.data_models.content import EnergyEnvironment
    t = sx.choice("t", TEXTS)
    kw = {"comment": t} if t.isascii() else {}
    kw |= {"name": t} if not set(t) & set("<>:;,?\"*|/\\") else {"name": "e"}
    return EnergyEnvironment(data_path=Path(t), data_type="ivsample", duration=1, energy_Ws=1, location=t, light_source=opt(sx, "ls", lambda: t),
                             id=3, created=DAY, updated_last=DAY, **kw)


def unset_ids(sx):
    """nothing but the required values"""
    from shepherd_core.data_models.content import EnergyEnvironment
    return EnergyEnvironment(name="env", data_path=Path("/tmp/x.h5"), data_type="ivsample", duration=sx.real("dur", 1e-3, 1e7), energy_Ws=1)


MODELS = {"power": power, "gpio": gpio, "logging": logging, "event": event, "actuation": actuation, "harvest": harvest,
          "harvest_power": harvest_power, "emulate": emulate, "emulate_parts": emulate_parts, "programming": programming, "modify": modify,
          "observer_tasks": observer_tasks, "testbed_tasks": testbed_tasks, "experiment": experiment, "group": group_features, "energy": env,
          "firmware": fw, "vharvester": vharvester, "vsource": vsource, "cal_series": cal_series, "cal_cape": cal_cape,
          "cal_measure": cal_measure, "testbed": site, "observer": node, "cape": board, "target": dut, "texts": words, "unset": unset_ids}


# ------------------------------------------------------------------------------ checks
def same(sx, where, a, b, skip=()):
    from pydantic import BaseModel
    if isinstance(a, BaseModel):
        if type(a) is not type(b):
            sx.check(f"{where}: same model", False)
            return
        for k in type(a).model_fields:
            if k not in skip:
                same(sx, f"{where}.{k}", getattr(a, k), getattr(b, k))
    elif type(a) in (list, tuple):
        if len(a) != len(b):
            sx.check(f"{where}: same length", False)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            same(sx, f"{where}[{i}]", x, y)
    else:
        if not isinstance(b, a.__class__):
            sx.check(f"{where}: same kind", False)
            return
        sx.check_eq(f"{where}: same value", a, b)


def trip(sx, name, minimal):
    m = MODELS[name](sx)
    path = m.to_file(sx.tmpdir() / "model.yaml", minimal=minimal)
    n = type(m).from_file(path)
    gone = GENERATED if minimal and name == "unset" else ()
    same(sx, name, m, n, gone)
    if not sx.sym and not gone:
        sx.check("equal", m == n)


def wrong_type(sx):
    p, h, c = power(sx), harvest(sx), cal_series(sx)
    for m in (p, h, c):
        f = m.to_file(sx.tmpdir() / "x.yaml", comment="c")
        for k in (p, h, c):
            ok, _n = sx.attempt(lambda f=f, k=k: type(k).from_file(f), ValueError)
            sx.check(f"{type(m).__name__} as {type(k).__name__}", ok == (type(m) is type(k)))


def place(sx):
    """file goes where asked, parents are made, and the returned path is the file"""
    p = power(sx)
    name = sx.choice("name", ["a.yaml", "a", "b/c/a.yml", "../x y/a.yaml"])
    (sx.tmpdir() / "w").mkdir()
    want = sx.tmpdir() / "w" / name
    as_text = sx.flag("text")
    got = p.to_file(str(want) if as_text else want, comment=sx.choice("comment", [None, "why not", "'\""]))
    sx.check("place", got == want.resolve().with_suffix(".yaml") and got.is_file())
    same(sx, "p", p, type(p).from_file(str(got) if as_text else got))


def twice(sx):
    """storing over an older file leaves nothing of it"""
    a, b = testbed_tasks(sx), logging(sx)
    f = sx.tmpdir() / "m.yaml"
    a.to_file(f)
    b.to_file(f)
    same(sx, "b", b, type(b).from_file(f))


_ = PureWindowsPath
