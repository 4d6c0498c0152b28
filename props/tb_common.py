"""testbed building blocks with ids far away from the shipped ones"""
from datetime import datetime

DAY = datetime(2024, 1, 1)
IPS = ("10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4")
MACS = ("18:62:E4:E4:41:00", "18:62:E4:E4:41:01", "18:62:E4:E4:41:02", "18:62:E4:E4:41:03")


def mcu():
    from shepherd_core.data_models.testbed import MCU
    return MCU(name="nRF52")


def target(i, active=True, **kw):
    from shepherd_core.data_models.testbed import Target
    return Target(id=i, name="tt", version="v1", description="d", active=active, mcu1=mcu(),
                  **{"created": DAY, **kw})


def cape(i, active=True, **kw):
    from shepherd_core.data_models.testbed import Cape
    return Cape(id=i, name="cc", version="v1", description="d", active=active, **{"created": DAY, **kw})


def observer(k, **kw):
    from shepherd_core.data_models.testbed import Observer
    d = {"id": 7000 + k, "name": f"obs{k}", "description": "d", "ip": IPS[k], "mac": MACS[k], "room": "r",
         "eth_port": f"p{k}", "created": DAY}
    return Observer(**{**d, **kw})


def testbed(observers, **kw):
    from shepherd_core.data_models.testbed import Testbed
    return Testbed(**{"id": 9, "name": "tb", "description": "d", "data_on_server": "/srv", "data_on_observer": "/obs",
                      "observers": observers, **kw})
