R = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
HDR = '''
import sys, tempfile, logging
from pathlib import Path
import numpy as np
'''
REC = HDR + '''
from shepherd_core import Writer
d = Path(tempfile.mkdtemp())
p = d / "rec.h5"
with Writer(p, verbose=None) as w:
    w.store_hostname("x")
    w.append_iv_data_si(0.0, np.linspace(1, 2, 100_000), np.ones(100_000) * 1e-3)
'''
SEEDS = {
"plot_time_from_section": dict(
    property="C40", file=D + "reader.py",
    old='data["time"] = data["time"] - self._cal.time.raw_to_si(self.ds_time[0])', new='data["time"] = data["time"] - data["time"][0]',
    needs="a plot of a section that does not start at the beginning",
    breaks="time is relative to the section instead of the recording",
    demo=REC + '''
from shepherd_data import Reader
with Reader(p, verbose=False) as r:
    t = r.generate_plot_data(0.5, 0.9)["time"]
sys.exit(0 if abs(t[0] - 0.5) < 1e-3 else str(t[0]))
'''),
"tracker_rounds_power": dict(
    property="C41", file=D + "mppt.py",
    old='coeffs["max_pos"] = coeffs.apply(lambda x: np.argmax(x["pcurve"]), axis=1)',
    new='coeffs["max_pos"] = coeffs.apply(lambda x: np.argmax(np.round(x["pcurve"], 6)), axis=1)',
    needs="a dim panel with less than a few microwatts",
    breaks="the optimal tracker leaves power unused",
    demo=HDR + '''
import pandas as pd
from shepherd_data.mppt import OptimalTracker, iv_model
co = pd.DataFrame({"time": [0.0], "a": [4e-7], "b": [1e-9], "c": [2.0]})
r = OptimalTracker(5.0, 100).process(co.copy())
v = np.linspace(0, 5.0, 100)
best = (v * iv_model(v, co.iloc[0])).max()
got = float(r["v"].iloc[0] * r["i"].iloc[0])
sys.exit(0 if got >= best * 0.999 else f"{got} {best}")
'''),
"ivonne_gap_between_blocks": dict(
    property="C42", file=D + "ivonne.py",
    edits=[(D + "ivonne.py", """                df_slice = self._df.iloc[idx : idx_top + 1].copy()
                df_slice.loc[:, "voc"] = get_voc(df_slice)
                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                df_slice.loc[:, "isc"]""", """                df_slice = self._df.iloc[idx:idx_top].copy()
                df_slice.loc[:, "voc"] = get_voc(df_slice)
                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                df_slice.loc[:, "isc"]""")],
    needs="a recording longer than one internal block",
    breaks="20 ms are missing at every block border",
    demo=HDR + '''
import pickle
import pandas as pd
from shepherd_data import ivonne, Reader
d = Path(tempfile.mkdtemp())
n = 4001
df = pd.DataFrame({"time": np.arange(n) / 50, "a": 0.01, "b": 1e-6, "c": 2.5})
(d / "x.iv").write_bytes(pickle.dumps(df))
with ivonne.Reader(d / "x.iv", verbose=False) as r:
    r.upsample_2_isc_voc(d / "o.h5")
with Reader(d / "o.h5", verbose=False) as r:
    k = r.ds_time.shape[0]
    jumps = set(np.unique(np.diff(r.ds_time[:])).tolist())
sys.exit(0 if k == 8_000_000 and jumps == {10_000} else f"{k} {jumps}")
'''),
"metadata_unsigned_only": dict(
    property="C43", file=R + "reader.py",
    old='elif "int" in str(node.dtype):\n                metadata["_dataset_info"]["statistics"]', new='elif str(node.dtype).startswith("uint"):\n                metadata["_dataset_info"]["statistics"]',
    needs="a dataset of signed integers",
    breaks="no statistics for signed datasets",
    demo=REC + '''
import h5py
from shepherd_core import Reader
with h5py.File(p, "a") as f:
    f.create_group("ptp").create_dataset("values", data=np.array([-3, 5], dtype="i4"))
with Reader(p, verbose=False) as r:
    m = r.get_metadata()
st = m["ptp"]["values"]["_dataset_info"].get("statistics")
sys.exit(0 if st and st["min"] == -3 else str(st))
'''),
"public_with_comment_only": dict(
    property="C44", file=R + "data_models/base/content.py",
    old="if is_visible and self.description is None:", new="if is_visible and self.description is None and self.comment is None:",
    needs="public content with a comment but no description",
    breaks="undescribed content becomes public",
    demo='''
import sys
from shepherd_core.data_models import EnergyEnvironment
d = dict(name="thing", data_path="a.h5", data_type="ivsample", duration=1, energy_Ws=1)
EnergyEnvironment(**d, visible2all=True, description="text")
try:
    EnergyEnvironment(**d, visible2all=True, comment="text")
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
"inventory_time_against_first": dict(
    property="C46", file=R + "inventory/__init__.py",
    old="ts_earl = min([_e.created.timestamp() for _e in self.elements])", new="ts_earl = self.elements[0].created.timestamp()",
    needs="a list whose first device is not the earliest",
    breaks="late devices are not reported",
    demo='''
import sys
from datetime import datetime, timedelta, timezone
from shepherd_core.inventory import Inventory, InventoryList
t = datetime(2025, 1, 1, tzinfo=timezone.utc)
def dev(k, dt):
    return Inventory(hostname=f"s{k}", created=t + timedelta(seconds=dt), timestamp=t, uptime=5, system="L", release="1", version="1", machine="a", processor="p", fs_root=[], beagle=[])
w = InventoryList(elements=[dev(0, 20), dev(1, 0), dev(2, 0)]).warn()
sys.exit(0 if "time_delta" in w else str(w))
'''),
"file_age_by_status_change": dict(
    property="C47", file=R + "testbed_client/fixtures.py",
    old="file.stat().st_mtime", new="file.stat().st_ctime",
    needs="a file whose content is older than its last change of name, owner or permissions",
    breaks="stale cache files are taken for fresh ones",
    demo='''
import os, sys, tempfile, time
from datetime import timedelta
from pathlib import Path
from shepherd_core.testbed_client.fixtures import file_older_than
p = Path(tempfile.mkdtemp()) / "f"
p.write_text("x")
os.utime(p, (time.time() - 90_000,) * 2)
sys.exit(0 if file_older_than(p, timedelta(hours=24)) else "taken for fresh")
'''),
}
