R = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
HDR = '''
import sys, tempfile, logging
from pathlib import Path
import numpy as np
'''
SEEDS = {
"raw_clamp_below_one": dict(
    property="C01", file=R + "data_models/base/calibration.py",
    old="values_raw[values_raw < 0.0] = 0.0", new="values_raw[values_raw <= -1.0] = 0.0",
    needs="an array with a value slightly below the calibration's zero point (between -1 and -0.5 raw units)",
    breaks="raw values become -1 instead of being clamped to 0",
    demo=HDR + '''
from shepherd_core.data_models.base.calibration import CalibrationPair
c = CalibrationPair(gain=1e-3, offset=0.5)
r = c.si_to_raw(np.array([0.4993, 0.4, 0.6]))
sys.exit(0 if (r >= 0).all() and r[2] == 100 else str(r))
'''),
"adc_limit_one_too_high": dict(
    property="C04", file=R + "calibration_hw_def.py",
    edits=[(R + "calibration_hw_def.py",
     """    val_raw = int(voltage * (2**M_ADC) / (G_ADC_V * V_REF_ADC))
    return min(max(val_raw, 0), 2**M_ADC - 1) if limited else val_raw""",
     """    val_raw = int(voltage * (2**M_ADC) / (G_ADC_V * V_REF_ADC))
    return min(max(val_raw, 0), 2**M_ADC) if limited else val_raw""")],
    needs="a voltage at or above the ADC's full scale",
    breaks="limited conversion leaves the 18 bit range",
    demo=HDR + '''
from shepherd_core.calibration_hw_def import adc_voltage_to_raw
sys.exit(0 if adc_voltage_to_raw(10.0) == 2**18 - 1 == adc_voltage_to_raw(5.12) else 1)
'''),
"gpio_only_ten_pins": dict(
    property="C12", file=R + "reader.py",
    old="gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0",
    new="gpio_ps = (gpio_vs[:] & 0b11_1111_1111 & (0b1 << pin_num)) > 0",
    needs="a recording with a described pin beyond bit 9",
    breaks="transitions of pins above bit 9 are lost",
    demo=HDR + '''
import h5py, yaml
from shepherd_core import Reader, Writer
p = Path(tempfile.mkdtemp()) / "a.h5"
with Writer(p, verbose=None) as w:
    g = w.h5file.create_group("gpio")
    g.create_dataset("time", data=np.array([10, 20, 30, 40], dtype="u8"))
    g.create_dataset("value", data=np.array([0, 4096, 4097, 0], dtype="u2"))
    g["value"].attrs["description"] = yaml.safe_dump({0: {"name": "a"}, 12: {"name": "b"}})
with Reader(p, verbose=None) as r:
    wf = r.gpio_to_waveforms()
sys.exit(0 if wf["b"].tolist() == [[10, 0], [20, 1], [40, 0]] and wf["a"].tolist() == [[10, 0], [30, 1], [40, 0]] else str(wf))
'''),
"line_start_at_zero": dict(
    property="C14", file=R + "decoder_waveform/uart.py",
    old='''            if t_start is None:
                t_start = time
            line += symbol''', new='''            if not t_start:
                t_start = time
            line += symbol''',
    needs="a waveform whose first symbol starts at time 0",
    breaks="the first line carries the timestamp of its second character",
    demo=HDR + '''
from shepherd_core.decoder_waveform import Uart
T = 1 / 9600
def frame(t, ch):
    bits = [0] + [(ord(ch) >> i) & 1 for i in range(8)] + [1]
    return [[t + i * T, b] for i, b in enumerate(bits)]
ev = []
for i, ch in enumerate("ab\\n"):
    ev += frame(i * 20 * T, ch)
ev.append([80 * T, 0]); ev.append([81 * T, 1])
# a direct look at the line splitter, independent of edge detection
u = Uart(np.array(ev), baud_rate=9600, inversion=False) if False else None
o = Uart.__new__(Uart)
o.events_symbols = np.array([(0.0, "a"), (0.1, "b"), (0.2, "\\n"), (0.3, "c")], dtype=object)
o.events_lines = None
o.text = None
l = o.get_lines()
sys.exit(0 if [(float(t), s) for t, s in l] == [(0.0, "ab\\n"), (0.3, "c")] else str(l))
'''),
"to_file_drops_defaults": dict(
    property="C28", file=R + "data_models/base/shepherd.py",
    old="model_dict = self.model_dump(exclude_unset=minimal)\n        model_wrap",
    new="model_dict = self.model_dump(exclude_unset=minimal, exclude_defaults=minimal)\n        model_wrap",
    needs="a model that inherits from a fixture and sets a parameter back to the model's default",
    breaks="the loaded model shows the fixture's value instead of the stored one",
    demo=HDR + '''
from shepherd_core.data_models.content.virtual_source import VirtualSourceConfig
v = VirtualSourceConfig(inherit_from="BQ25504", name="x", C_intermediate_uF=0, owner="a", group="g")
p = v.to_file(Path(tempfile.mkdtemp()) / "v.yaml")
w = VirtualSourceConfig.from_file(p)
sys.exit(0 if w.C_intermediate_uF == v.C_intermediate_uF == 0 else "%r" % w.C_intermediate_uF)
'''),
"validate_last_file_decides": dict(
    property="C34", file=D + "cli.py",
    old="                valid_dir &= valid_file\n", new="                valid_dir = valid_file\n",
    needs="a directory in which an invalid file is examined before a valid one",
    breaks="validate reports success although one of the files is invalid",
    demo=HDR + '''
import h5py
from click.testing import CliRunner
from shepherd_core import Writer
from shepherd_data import cli
d = Path(tempfile.mkdtemp())
def mk(name, ok):
    with Writer(d / name, verbose=None) as w:
        n = 30_000
        w.append_iv_data_raw(np.arange(n, dtype="u8") * 10_000, np.ones(n, dtype="u4"), np.ones(n, dtype="u4"))
    if not ok:
        with h5py.File(d / name, "r+") as h:
            del h["data"]["current"].attrs["gain"]
for i in range(6):
    mk("f%d.h5" % i, True)
bad = [False]
import shepherd_data.cli as c
for name in ("f%d.h5" % i for i in range(6)):
    # every position in the list once
    with h5py.File(d / name, "r+") as h:
        g = h["data"]["current"].attrs["gain"]; del h["data"]["current"].attrs["gain"]
    rc = CliRunner().invoke(c.cli, ["validate", str(d)]).exit_code
    with h5py.File(d / name, "r+") as h:
        h["data"]["current"].attrs["gain"] = g
    if rc == 0:
        sys.exit(name)
sys.exit(CliRunner().invoke(c.cli, ["validate", str(d)]).exit_code)
'''),
"vstep_single_step_size": dict(
    property="C39", file=R + "reader.py",
    old="            if len(diffs_ls) == 0:\n", new="            if len(diffs_ls) <= 1:\n",
    needs="a recording whose voltage only ever changes by one and the same step",
    breaks="no voltage step is reported although the voltage changes",
    demo=HDR + '''
from shepherd_core import Reader, Writer
p = Path(tempfile.mkdtemp()) / "a.h5"
with Writer(p, verbose=None, mode="harvester", datatype="ivcurve", window_samples=10) as w:
    n = 20_000
    v = (np.arange(n) // 5 % 2).astype("u4") * 5 + 100
    w.append_iv_data_raw(np.arange(n, dtype="u8") * 10_000, v, v)
with Reader(p, verbose=None) as r:
    s, g = r.get_voltage_step(), r.get_calibration_data().voltage.gain
sys.exit(0 if s is not None and abs(s - 5 * g) < 1e-12 else "%r" % s)
'''),
"observer_skips_decommissioned_cape": dict(
    property="C26", file=R + "data_models/testbed/testbed.py",
    old="            if not _observer.active or not has_cape:\n",
    new="            if not _observer.active and not has_cape:\n",
    needs="an active observer whose cape is decommissioned",
    breaks="targets behind a decommissioned cape are handed out",
    demo=HDR + '''
from shepherd_core.data_models.testbed import Testbed, Observer, Cape, Target
tb = Testbed()
obs = [o for o in tb.observers if o.active and o.cape is not None and o.cape.active and o.target_a is not None and o.target_a.active][0]
tid = obs.target_a.id
assert tb.get_observer(tid).id == obs.id
off = obs.model_copy(update={"cape": obs.cape.model_copy(update={"active": False})})
tb2 = tb.model_copy(update={"observers": [off if o.id == obs.id else o for o in tb.observers]})
try:
    tb2.get_observer(tid)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
"programming_port_two_first_fw": dict(
    property="C25", file=R + "data_models/task/programming.py",
    old="        fw = tgt_cfg.firmware1 if mcu_port == 1 else tgt_cfg.firmware2\n",
    new="        fw = tgt_cfg.firmware2 if mcu_port == 2 and tgt_cfg.firmware2 is not None else tgt_cfg.firmware1\n",
    needs="an experiment that gives only a firmware for the first controller",
    breaks="a programming task for the second controller appears, for a firmware nobody asked for",
    demo=HDR + '''
from shepherd_core.data_models.content import EnergyEnvironment, Firmware
from shepherd_core.data_models.experiment import Experiment, TargetConfig
from shepherd_core.data_models.task import TestbedTasks
xp = Experiment(name="x", comment="y", target_configs=[TargetConfig(target_IDs=[1], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))])
t = TestbedTasks.from_xp(xp).observer_tasks[0]
sys.exit(0 if t.fw2_prog is None and t.fw1_prog is not None else "second")
'''),
}
