"""a small testbed inside the database: its targets have ids above 5000 (or 16 bit further up)"""
from .tb_common import cape, observer, target, testbed

# id -> (observer or None, target active, node id, has a second mcu)
TARGETS = {
    5001: (0, True, 5001, True),
    70537: (1, True, 5001, True),  # 65536 + 5001
    5003: (1, True, 5003, False),  # second port of the same observer
    5004: (2, True, 77, True),  # node id given explicitly
    77: (3, True, 77, False),
    5006: (4, False, 5006, True),  # decommissioned target
    5007: (5, True, 5007, True),  # on a decommissioned observer
    5008: (6, True, 5008, True),  # behind a decommissioned cape
    5009: (None, True, 5009, True),  # in a drawer
    5010: (7, True, 5010, True),
}
UNKNOWN = 5999
OBS_OFF, CAPE_OFF = 5, 6
HOSTED = [5001, 70537, 5003, 5004, 77, 5010]


def host(t):
    """number of the observer a target can be used on"""
    if t not in TARGETS:
        return None
    o, active, _n, _m = TARGETS[t]
    return o if o is not None and active and o not in (OBS_OFF, CAPE_OFF) else None


_done = []


def database():
    """insert it (same effect every time)"""
    from shepherd_core.data_models.testbed import Testbed
    from shepherd_core.testbed_client import tb_client
    if _done:
        return
    from shepherd_core.data_models.testbed import MCU
    from . import tb_common
    tb_common.IPS = tuple(f"10.0.0.{i}" for i in range(20))
    tb_common.MACS = tuple(f"18:62:E4:E4:41:{i:02}" for i in range(20))
    obs = {}
    for t, (o, active, node, two) in TARGETS.items():
        kw = {"testbed_id": node} if t == 5004 else {}
        if two:
            kw["mcu2"] = MCU(name="MSP430FR")
        tgt = target(t, active, **kw).model_copy(update={"name": f"tgt{t}"})
        tb_client.insert(tgt)
        if o is not None:
            obs.setdefault(o, []).append(tgt)
    made = []
    for o, ts in sorted(obs.items()):
        kw = {f"target_{'ba' if o % 2 == 0 else 'ab'}"[:-1]: ts[0]}
        if len(ts) > 1:
            kw = {"target_a": ts[0], "target_b": ts[1]}
        made.append(observer(o, active=o != OBS_OFF, cape=cape(900 + o, o != CAPE_OFF), **kw))
    real = Testbed()
    tb_client.insert(testbed(made, id=real.id, name=real.name))
    _done.append(testbed(made, id=real.id, name=real.name))


def the_testbed():
    database()
    from shepherd_core.data_models.testbed import Testbed
    return Testbed()


def firmware(mcu="nRF52", name="fw", **kw):
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.data_models.testbed import MCU
    return Firmware(**{"name": name, "mcu": MCU(name=mcu) if isinstance(mcu, str) else mcu, "data": f"/tmp/{name}.elf", "data_type": "path_elf",
                       "data_local": True, **kw})


def energy(name="env", valid=True, **kw):
    from shepherd_core.data_models.content import EnergyEnvironment
    return EnergyEnvironment(**{"name": name, "data_path": f"/tmp/{name}.h5", "data_type": "ivsample", "duration": 10,
                                "energy_Ws": 1, "valid": valid, **kw})
