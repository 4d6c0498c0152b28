R = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
HDR = '''
import sys, tempfile, logging
from pathlib import Path
import numpy as np
'''
REC = HDR + '''
import h5py
def rec(path, n, cal=None, step=10_000, **kw):
    from shepherd_core import Writer
    with Writer(Path(path), verbose=None, cal_data=cal, **kw) as w:
        w.append_iv_data_raw(np.arange(n, dtype="u8") * step, np.arange(n, dtype="u4") % 1000 + 5,
                             np.arange(n, dtype="u4") % 777 + 3)
'''
SEEDS = {
"vsrc_feedback_boost": dict(
    property="C15", file=R + "data_models/content/virtual_source.py",
    old='''            and enable_storage
            and not enable_boost
''', new='''            and enable_storage
''',
    needs="a source that asks for boost and harvester feedback at once, with an ivcurve as input",
    breaks="feedback bit is set although the boost converter is active",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig, ConverterPRUConfig
from shepherd_core.data_models.base.content import IdInt
from shepherd_core.commons import samplerate_sps_default
from shepherd_core.data_models import EnergyDType
v = VirtualSourceConfig(name="BQ25570", enable_feedback_to_hrv=True)
assert v.enable_boost and v.C_intermediate_uF > 0
m = ConverterPRUConfig.from_vsrc(v, EnergyDType.ivcurve).converter_mode
sys.exit("mode %d" % m if m & 16 else 0)
'''),
"vhrv_duration_config_interval": dict(
    property="C17", file=R + "data_models/content/virtual_harvester.py",
    old="duration_ms = min(max(self.duration_ms, time_min_ms), interval_ms)",
    new="duration_ms = min(max(self.duration_ms, time_min_ms), self.interval_ms)",
    needs="a configured interval that is shorter than one settling step / one curve window",
    breaks="measurement duration falls below one settling step (curve window)",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_harvester import VirtualHarvesterConfig
h = VirtualHarvesterConfig(name="mppt_voc", interval_ms=0.015, duration_ms=0.015, wait_cycles=7, samples_n=16)
for emu in (False, True):
    i, d = h.calc_timings_ms(for_emu=emu)
    low = (1 + 7) * 0.01 * (16 if emu else 1)
    if not (low - 1e-9 <= d <= i):
        sys.exit("%r %r" % (i, d))
'''),
"vcnv_mid_protection_10mV": dict(
    property="C18", file=R + "vsource/virtual_converter_model.py",
    old="V_mid_prot_uV = max(1.0, self.V_mid_uV)",
    new="V_mid_prot_uV = max(1e4, self.V_mid_uV)",
    needs="a storage capacitor charged from (nearly) empty",
    breaks="energy entering a storage below 10 mV does not raise its voltage accordingly",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig, ConverterPRUConfig
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel, PruCalibration
cfg = ConverterPRUConfig.from_vsrc(VirtualSourceConfig(name="BQ25504", C_intermediate_uF=100.0))
m = VirtualConverterModel(cfg, PruCalibration())
m.set_V_intermediate_uV(1000.0)
m.set_P_input_fW(5e6)
m.set_P_output_fW(0.0)
m.update_cap_storage()
want = 1000.0 + 5e6 / 1000.0 * m.Constant_us_per_nF
sys.exit(0 if abs(m.V_mid_uV - want) < 1e-6 * want else "%r %r" % (m.V_mid_uV, want))
'''),
"pwrgood_after_drop": dict(
    property="C19", file=R + "vsource/virtual_converter_model.py",
    old="elif V_mid_uV_now >= self._cfg.V_pwr_good_enable_threshold_uV:",
    new="elif self.V_mid_uV >= self._cfg.V_pwr_good_enable_threshold_uV:",
    needs="storage voltage whose drop on enabling the output falls back below the power-good threshold",
    breaks="power-good stays low although the storage was above its enable threshold at the check",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig, ConverterPRUConfig
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel, PruCalibration
v = VirtualSourceConfig(name="BQ25570", C_intermediate_uF=22.0, C_output_uF=10.0)
cfg = ConverterPRUConfig.from_vsrc(v)
assert cfg.dV_enable_output_uV > 10
cfg = cfg.model_copy(update={"V_pwr_good_enable_threshold_uV": cfg.V_enable_output_threshold_uV,
                             "V_pwr_good_disable_threshold_uV": 1000})
m = VirtualConverterModel(cfg, PruCalibration())
m.power_good = False
m.set_V_intermediate_uV(float(cfg.V_enable_output_threshold_uV))
m.update_states_and_output()
assert m.is_outputting
sys.exit(0 if m.get_power_good() else "power good missing")
'''),
"lut_out_round": dict(
    property="C20", file=R + "vsource/virtual_converter_model.py",
    old="current_n = int(current_nA / (2**self._cfg.LUT_output_I_min_log2_nA))",
    new="current_n = round(current_nA / (2**self._cfg.LUT_output_I_min_log2_nA))",
    needs="an output current closely below the border of two octaves",
    breaks="efficiency of the next table column is used",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig, ConverterPRUConfig
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel, PruCalibration
cfg = ConverterPRUConfig.from_vsrc(VirtualSourceConfig(name="BQ25570"))
cfg = cfg.model_copy(update={"LUT_out_inv_efficiency_n4": list(range(16, 28))})
m = VirtualConverterModel(cfg, PruCalibration())
b = 2 ** cfg.LUT_output_I_min_log2_nA
x = [m.get_output_inv_efficiency(f * b) for f in (2.0, 3.7, 4.0)]
sys.exit(0 if x[0] == x[1] < x[2] else str(x))
'''),
"mppt_opt_age_reset": dict(
    property="C21", file=R + "vsource/virtual_harvester_model.py",
    edits=[(R + "vsource/virtual_harvester_model.py",
            '''            self.age_now = self.age_nxt
            self.power_now = self.power_nxt''',
            '''            self.age_now = 0
            self.power_now = self.power_nxt''')], old=None, new=None,
    needs="a maximum that is only promoted once the previous one expired, power dropping over several windows",
    breaks="optimal MPPT keeps returning a sample that is up to four windows old",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_harvester import VirtualHarvesterConfig, HarvesterPRUConfig
from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
h = VirtualHarvesterConfig(name="mppt_opt")
cfg = HarvesterPRUConfig.from_vhrv(h, dtype_in="ivcurve", window_size=4, voltage_step_V=0.01, for_emu=True)
m = VirtualHarvesterModel(cfg)
v0 = cfg.voltage_min_uV + 1000
P = [1000, 900, 5, 4, 3, 2] + [1] * 40
for i, p in enumerate(P):
    v, c = m.ivcurve_sample(v0, p)
    age = i - max([k for k in range(i + 1) if P[k] == c], default=i)
    if age > 2 * 4 + 1:
        sys.exit("sample of %d steps ago" % age)
'''),
"adc_residue_dropped": dict(
    property="C22", file=R + "vsource/virtual_converter_model.py",
    old='''                self.negative_residue_nA = self.negative_residue_nA - I_nA
''', new='''                self.negative_residue_nA = abs(I_nA)
''',
    needs="calibration with negative offset and several readings in a row below the stored residue",
    breaks="the compensation forgets (or invents) residue, so that the energy over several readings is off",
    demo=HDR + '''
from shepherd_core.data_models.base import calibration as c
from shepherd_core.vsource.virtual_converter_model import PruCalibration
cal = c.CalibrationEmulator(adc_C_A=c.CalibrationPair(gain=1e-9, offset=-1000e-9))
p = PruCalibration(cal)
raw = [0, 500, 800, 1100, 1400]
res, ok = 0.0, True
for r in raw:
    i = r - 1000.0
    if i > res:
        want, res = i - res, 0.0
    else:
        res, want = min(res - i, PruCalibration.RESIDUE_MAX_nA), 0
    got = p.conv_adc_raw_to_nA(r)
    ok &= got >= 0 and abs(got - want) < 1e-3 and p.negative_residue_nA >= 0 and abs(p.negative_residue_nA - res) < 1e-3
sys.exit(0 if ok else 1)
'''),
"inherit_falsy_override": dict(
    property="C23", file=R + "testbed_client/fixtures.py",
    edits=[(R + "testbed_client/fixtures.py",
            '''                # keep previous entries
                base_dict[key] = value
''', '''                # keep previous entries
                if value or key not in base_dict:
                    base_dict[key] = value
''')], old=None, new=None,
    needs="an element that inherits and overrides a parameter with 0, False or an empty value",
    breaks="the explicit value is ignored in favour of the inherited one",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
v = VirtualSourceConfig(name="my_src", inherit_from="BQ25570", id=77001, enable_boost=False, C_output_uF=0)
b = VirtualSourceConfig(name="BQ25570")
assert b.enable_boost and b.C_output_uF > 0
sys.exit(0 if not v.enable_boost and v.C_output_uF == 0 else "override ignored")
'''),
"tgt_custom_id_set_size": dict(
    property="C24", file=R + "data_models/experiment/target_config.py",
    old="if c_ids is not None and (len(set(c_ids)) < len(set(t_ids))):",
    new="if c_ids is not None and (len(c_ids) < len(set(t_ids))) and len(set(c_ids)) > 1:",
    needs="a single custom ID given for several targets",
    breaks="a target group with too few custom IDs is accepted, a later lookup of its ID fails",
    demo=HDR + '''
from shepherd_core.data_models.experiment.target_config import TargetConfig
from shepherd_core.data_models.content import EnergyEnvironment, Firmware
try:
    TargetConfig(target_IDs=[1, 2, 3], custom_IDs=[5], energy_env=EnergyEnvironment(name="SolarSunny"),
                 firmware1=Firmware(name="nrf52_demo_rf"))
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
"fwmod_zero_custom_id": dict(
    property="C25", file=R + "data_models/task/firmware_mod.py",
    old="        if fw_id is None:\n", new="        if not fw_id:\n",
    needs="a custom ID of 0",
    breaks="the ID of the testbed is patched in instead of the custom ID 0",
    demo=HDR + '''
from datetime import timedelta
from shepherd_core.data_models.experiment import Experiment, TargetConfig
from shepherd_core.data_models.content import EnergyEnvironment, Firmware
from shepherd_core.data_models.task import TestbedTasks
from shepherd_core.data_models.testbed import Testbed
from shepherd_core.data_models.testbed import Target
tb = Testbed()
tid = None
for o in tb.observers:
    for t in (o.target_a, o.target_b):
        if t is not None and t.mcu1.name == "nRF52" and tid is None:
            try:
                tb.get_observer(t.id); tid = t.id
            except Exception:
                pass
fw = Firmware(name="nrf52_demo_rf")
xp = Experiment(name="meaningful", duration=timedelta(seconds=30), target_configs=[TargetConfig(
    target_IDs=[tid], custom_IDs=[0], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=fw)])
t = TestbedTasks.from_xp(xp, tb)
got = t.observer_tasks[0].fw1_mod.custom_id
sys.exit(0 if got == 0 else "patched ID %r" % got)
'''),
"inactive_target_b": dict(
    property="C26", file=R + "data_models/testbed/observer.py",
    old='''            self.target_b is not None and target_id == self.target_b.id and self.target_b.active
''', new='''            self.target_b is not None and target_id == self.target_b.id
''',
    needs="a decommissioned target on port B of an active observer",
    breaks="a lookup of an inactive target succeeds",
    demo=HDR + '''
from shepherd_core.data_models.testbed import Testbed, Observer, Target, Cape
tb = Testbed()
for o in tb.observers:
    if o.cape is not None:
        break
tgt = [t for x in tb.observers for t in (x.target_a, x.target_b) if t is not None][0]
d = tgt.model_dump(); d.update(id=778, active=False, name="off")
obs = o.model_copy(update={"active": True, "cape": o.cape.model_copy(update={"active": True}), "target_a": None, "target_b": tgt.model_copy(update={"id": 778, "active": False})})
t2 = tb.model_copy(update={"observers": [obs]})
try:
    t2.get_observer(778)
except ValueError:
    sys.exit(0)
sys.exit("found")
'''),
"negative_subsecond_delay": dict(
    property="C27", file=R + "data_models/experiment/observer_features.py",
    edits=[(R + "data_models/experiment/observer_features.py",
            '''        if self.delay and self.delay.total_seconds() < 0:
            raise ValueError("Delay can't be negative.")
        if self.duration and self.duration.total_seconds() < 0:
            raise ValueError("Duration can't be negative.")
        return self


class GpioLevel''',
            '''        if self.delay and int(self.delay.total_seconds()) < 0:
            raise ValueError("Delay can't be negative.")
        if self.duration and self.duration.total_seconds() < 0:
            raise ValueError("Duration can't be negative.")
        return self


class GpioLevel''')], old=None, new=None,
    needs="a negative delay of less than one second",
    breaks="gpio tracing with a negative delay is accepted",
    demo=HDR + '''
from datetime import timedelta
from shepherd_core.data_models.experiment.observer_features import GpioTracing
try:
    GpioTracing(delay=timedelta(milliseconds=-300))
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
"hash_prefix_only": dict(
    property="C30", file=R + "data_models/content/firmware.py",
    old='''            if values.get("data_hash") is not None and _hash != values.get("data_hash"):
''', new='''            if values.get("data_hash") is not None and _hash[:8] != values.get("data_hash")[:8]:
''',
    needs="a stated hash that shares its first digits with the real one",
    breaks="embedded firmware with a wrong hash is accepted",
    demo=HDR + '''
from shepherd_core import fw_tools
from shepherd_core.data_models.content import Firmware
with tempfile.TemporaryDirectory() as d:
    f = Path(d) / "a.hex"
    f.write_bytes(b":00000001FF")
    b, h = fw_tools.file_to_base64(f), fw_tools.file_to_hash(f)
from shepherd_core.data_models.content.firmware_datatype import FirmwareDType
Firmware(name="xyz", mcu={"name": "nrf52"}, data=b, data_type=FirmwareDType.base64_hex, data_hash=h, id=9911)
bad = h[:-1] + ("0" if h[-1] != "0" else "1")
try:
    Firmware(name="xyz", mcu={"name": "nrf52"}, data=b, data_type=FirmwareDType.base64_hex, data_hash=bad, id=9911)
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
"observer_tasks_prefix": dict(
    property="C31", file=R + "data_models/task/testbed_tasks.py",
    old="            if observer == tasks.observer:\n", new="            if tasks.observer.startswith(observer):\n",
    needs="an observer whose name is the beginning of the name of an earlier observer (sheep1, sheep10)",
    breaks="tasks of another observer are handed out",
    demo=HDR + '''
from datetime import datetime
from shepherd_core.data_models.task import TestbedTasks, ObserverTasks, prepare_task
def obt(n):
    return ObserverTasks(observer=n, owner_id=1, time_prep=datetime(2030, 1, 1), root_path="/tmp/x", abort_on_error=False)
tb = TestbedTasks(name="abc", observer_tasks=[obt("sheep10"), obt("sheep1")], owner_id=1)
w = prepare_task(tb, "sheep1")
sys.exit(0 if w.parameters["observer"] == "sheep1" else w.parameters["observer"])
'''),
"filter_state_lost": dict(
    property="C32", file=D + "reader.py",
    old="slice_ds, f_state = signal.sosfilt(filter_, slice_ds, zi=f_state)",
    new="slice_ds, _ = signal.sosfilt(filter_, slice_ds, zi=f_state)",
    needs="a recording longer than one internal block (40 s)",
    breaks="the low-pass starts anew at every internal block",
    demo=REC + '''
from shepherd_data import Reader
with tempfile.TemporaryDirectory() as d:
    rec(d + "/a.h5", 10_000)
    with Reader(Path(d + "/a.h5"), verbose=False) as r:
        x = np.sin(np.arange(10_000) / 50.0) + 2
        a = np.array(r.downsample(x, None, ds_factor=5))
        r.max_elements = 1000
        b = np.array(r.downsample(x, None, ds_factor=5))
sys.exit(0 if a.shape == b.shape and np.allclose(a, b, atol=1e-9) else "block dependent")
'''),
"cut_floor_samples": dict(
    property="C33", file=D + "reader.py",
    old="        end_sample = round(end_s * self.samplerate_sps)\n\n        # test input",
    new="        end_sample = int(end_s * self.samplerate_sps)\n\n        # test input",
    needs="an end mark whose product with the sample rate is slightly below an integer",
    breaks="last sample of the requested range is dropped",
    demo=REC + '''
from shepherd_data import Reader
with tempfile.TemporaryDirectory() as d:
    # 10 ksps
    rec(d + "/a.h5", 30_000, step=100_000)
    with Reader(Path(d + "/a.h5"), verbose=False) as r:
        n = None
        for k in range(2000, 20000):
            if int(k / 10_000 * 10_000) != k:
                n = k
                break
        if n is None:
            n = 2500
            end = 0.25 - 1e-6
        else:
            end = n / 10_000
        f = r.cut_and_downsample_to_file(0.0, end, 1)
    with h5py.File(f) as h:
        got = h["data"]["voltage"].shape[0]
sys.exit(0 if got == n else "%d of %d" % (got, n))
'''),
"csv_offset_first": dict(
    property="C35", file=D + "reader.py",
    old="values = values * gains[key] + offsets[key]",
    new="values = (values + offsets[key]) * gains[key]",
    needs="a dataset with an offset and a gain other than one",
    breaks="the offset is scaled by the gain",
    demo=REC + '''
from shepherd_data import Reader
with tempfile.TemporaryDirectory() as d:
    rec(d + "/a.h5", 10_000)
    with h5py.File(d + "/a.h5", "r+") as h:
        h["data"]["voltage"].attrs["gain"] = 0.5
        h["data"]["voltage"].attrs["offset"] = 4.0
        v = int(h["data"]["voltage"][0])
        h["data"]["current"].attrs["gain"] = 1.0
        h["data"]["current"].attrs["offset"] = 0.0
    with Reader(Path(d + "/a.h5"), verbose=False) as r:
        r.save_csv(r["data"], ";")
    row = [p for p in Path(d).glob("*.csv")][0].read_text(encoding="utf-8-sig").splitlines()[1]
vals = [float(x) for x in row.split(";")[1:]]
sys.exit(0 if v * 0.5 + 4.0 in vals else row)
'''),
"calmeas_rvalue_abs": dict(
    property="C36", file=R + "data_models/base/cal_measurement.py",
    old="    if rval < 0.999:\n", new="    if rval < 0.999 and len(data) > 3:\n",
    needs="three measurements that do not lie on a line",
    breaks="uncorrelated measurements are turned into a calibration",
    demo=HDR + '''
from shepherd_core.data_models.base.cal_measurement import meas_to_cal
try:
    meas_to_cal([{"shepherd_raw": 1, "reference_si": 0.0}, {"shepherd_raw": 2, "reference_si": 5.0},
                 {"shepherd_raw": 3, "reference_si": 1.0}], "abc")
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''),
"extract_keeps_tail": dict(
    property="C37", file=R + "fw_tools/converter.py",
    edits=[(R + "fw_tools/converter.py",
            '''    with file_path.resolve().open("wb") as file:
        file.write(file_content)
''', '''    with file_path.resolve().open("r+b" if file_path.exists() else "wb") as file:
        file.write(file_content)
''')], old=None, new=None,
    needs="extraction onto an existing, longer file",
    breaks="the rest of the older file stays behind the firmware",
    demo=HDR + '''
from shepherd_core import fw_tools
with tempfile.TemporaryDirectory() as d:
    a, b = Path(d) / "a.elf", Path(d) / "b.elf"
    a.write_bytes(b"12345")
    b.write_bytes(b"0123456789")
    fw_tools.base64_to_file(fw_tools.file_to_base64(a), b)
    sys.exit(0 if b.read_bytes() == b"12345" else "tail stays")
'''),
"cap_drop_from_enable": dict(
    property="C16", file=R + "data_models/content/virtual_source.py",
    old="            dV_output_imed_low_mV = v_out * (1 - pow(1 - c_out / c_store, 0.5))\n",
    new="            dV_output_imed_low_mV = v_out * (1 - pow(1 - c_out / (c_store + c_out), 0.5))\n",
    needs="an enabled buck converter whose enable threshold lies below its output voltage",
    breaks="the drop does not move the energy of the output capacitor out of the storage",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
v = VirtualSourceConfig(name="BQ25570", C_intermediate_uF=100.0, C_output_uF=20.0, V_output_mV=3000.0,
                        V_intermediate_enable_threshold_mV=2000.0, V_intermediate_disable_threshold_mV=1900.0,
                        V_buck_drop_mV=0.0)
s = v.calc_internal_states()
dv = s["dV_enable_output_mV"]
# reference: storage at the output voltage
want = 3000.0 * (1 - (1 - 0.2) ** 0.5)
sys.exit(0 if abs(dv - want) < 1e-6 * want else "%r %r" % (dv, want))
'''),
"gpio_initial_level": dict(
    property="C12", file=R + "decoder_waveform/x.py", old="", new="", needs="", breaks="", demo="") if False else None,
"modify_keeps_old_datatype": dict(
    property="C08", file=R + "writer.py",
    old='''        if "window_samples" not in self.h5file["data"].attrs:
            self.h5file["data"].attrs["window_samples"] = 0
''', new='''        elif self._modify and datatype is not None:
            self.h5file["data"].attrs["window_samples"] = 0
''',
    needs="a recording that is modified with its datatype given, but without the window size",
    breaks="modifying forgets the stored window size",
    demo=REC + '''
from shepherd_core import Writer
from shepherd_core.data_models import EnergyDType
with tempfile.TemporaryDirectory() as d:
    rec(d + "/a.h5", 10_000, window_samples=50)
    with Writer(Path(d + "/a.h5"), datatype=EnergyDType.ivsample, modify_existing=True, verbose=None):
        pass
    with h5py.File(d + "/a.h5") as h:
        got = int(h["data"].attrs["window_samples"])
sys.exit(0 if got == 50 else "window %d" % got)
'''),
"valid_needs_current_offset": dict(
    property="C09", file=R + "reader.py",
    old='''                if attr not in self.h5file["data"][dset].attrs:
''', new='''                if dset != "time" and attr not in self.h5file["data"][dset].attrs:
''',
    needs="a file whose time dataset lacks gain or offset",
    breaks="a structurally faulty file is accepted as valid",
    demo=REC + '''
from shepherd_core import Reader
with tempfile.TemporaryDirectory() as d:
    rec(d + "/a.h5", 10_000)
    with h5py.File(d + "/a.h5", "r+") as h:
        del h["data"]["time"].attrs["offset"]
    with Reader(Path(d + "/a.h5"), verbose=False) as r:
        sys.exit("valid" if r.is_valid() else 0)
'''),
"align_current_forgotten": dict(
    property="C06", file=R + "writer.py",
    old='''            if self.samplerate_sps != samplerate_sps_default:
''', new='''            if self.samplerate_sps < samplerate_sps_default:
''',
    needs="a recording with a sample rate above the default whose length is no multiple of the buffer size",
    breaks="samples of a recording with another sample rate are cut off",
    demo=REC + '''
with tempfile.TemporaryDirectory() as d:
    rec(d + "/a.h5", 12_345, step=1000)
    with h5py.File(d + "/a.h5") as h:
        n = h["data"]["voltage"].shape[0]
sys.exit(0 if n == 12_345 else "%d" % n)
'''),
}
SEEDS = {k: v for k, v in SEEDS.items() if v}
