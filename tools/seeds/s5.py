R = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
SEEDS = {
"store_replaced_keeps_id": dict(
    property="C45", file=R + "testbed_client/fixtures.py",
    old="        self.elements_by_id[_id] = data\n", new="        if _id not in self.elements_by_id:\n            self.elements_by_id[_id] = data\n",
    needs="an element that is inserted a second time, asked for by id",
    breaks="the former element is still served by id",
    demo='''
import sys, tempfile
from pathlib import Path
from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.testbed_client.fixtures import Fixture
f = Fixture("thing")
f.insert(Wrapper(datatype="Thing", parameters={"name": "a", "id": 1, "p": 1}))
f.insert(Wrapper(datatype="Thing", parameters={"name": "a", "id": 1, "p": 2}))
sys.exit(0 if f.query_id(1)["p"] == 2 and f.query_name("A")["p"] == 2 else "former element")
'''),
"store_stops_at_comment": dict(
    property="C45", file=R + "testbed_client/fixtures.py",
    old="                if not isinstance(fixture, dict):\n                    continue\n", new="                if not isinstance(fixture, dict):\n                    break\n",
    needs="a file with an item that is no element before the last one",
    breaks="the remaining elements of the file are lost",
    demo='''
import sys, tempfile
from pathlib import Path
import yaml
from shepherd_core.testbed_client.fixtures import Fixtures
p = Path(tempfile.mkdtemp()) / "a.yaml"
p.write_text(yaml.safe_dump([{"datatype": "Thing", "parameters": {"name": "a", "id": 1}}, "text", {"datatype": "Thing", "parameters": {"name": "b", "id": 2}}]))
f = Fixtures(p, reset=True)
sys.exit(0 if sorted(f["thing"].keys()) == ["a", "b"] else str(list(f["thing"].keys())))
'''),
"client_overrides_owner": dict(
    property="C48", file=R + "testbed_client/client_web.py",
    old='        if values.get("owner") is None:\n            values["owner"] = self._user.name\n        if values.get("group") is None:\n            values["group"] = self._user.group\n',
    new='        if values.get("owner") is None or values.get("group") is None:\n            values["owner"] = self._user.name\n            values["group"] = self._user.group\n',
    needs="content with an owner but no group",
    breaks="content changes its owner",
    demo='''
import sys, types
class Reply:
    def __init__(self, v): self.v = v
    def raise_for_status(self): pass
    def json(self): return self.v
m = types.ModuleType("requests")
m.get = lambda url, **k: Reply({"value": "k"} if "session_key" in url else {"name": "jane", "group": "lab", "email": "j@example.org", "token": "t", "id": 3})
m.post = lambda url, **k: Reply(None)
sys.modules["requests"] = m
from shepherd_core.testbed_client.client_web import WebClient
v = WebClient("http://x", "abc").fill_in_user_data({"owner": "joe"})
sys.exit(0 if v == {"owner": "joe", "group": "lab"} else str(v))
'''),
"pin_half_wired": dict(
    property="C49", file=R + "data_models/testbed/gpio.py",
    old="no_pru = (self.reg_pru is None) or (self.pin_pru is None)", new="no_pru = (self.reg_pru is None) and (self.pin_pru is None)",
    needs="a pin with a register but no pin of the real-time unit",
    breaks="half-wired pins are accepted",
    demo='''
import sys
from shepherd_core.data_models.testbed import GPIO
GPIO(id=1 << 21, name="x", reg_pru="r", pin_pru="p")
try:
    GPIO(id=1 << 21, name="x", reg_pru="r")
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
}
