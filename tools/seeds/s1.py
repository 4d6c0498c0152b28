R = "shepherd_core/shepherd_core/"
CAL = R + "data_models/base/calibration.py"
HDR = '''
import sys, tempfile, logging
from pathlib import Path
import numpy as np
import h5py
'''
REC = HDR + '''
def rec(path, n, cal=None, **kw):
    from shepherd_core import Writer
    with Writer(Path(path), verbose=None, cal_data=cal, **kw) as w:
        w.append_iv_data_raw(np.arange(n, dtype="u8") * 10_000, np.arange(n, dtype="u4") % 1000 + 5,
                             np.arange(n, dtype="u4") % 777 + 3)
'''
SEEDS = {
"bytestr_zero_keeps_default": dict(
    property="C02", file=CAL,
    old="dv[walk[0]][walk[1]][walk[2]] = float(values[_i])",
    new="dv[walk[0]][walk[1]][walk[2]] = float(values[_i]) or walk[3]",
    needs="a calibration value that is exactly 0.0 in the EEPROM while the default at that position is not",
    breaks="zero entries of the EEPROM are replaced by the default of the model",
    demo=HDR + '''
from shepherd_core.data_models.base import calibration as c
P = c.CalibrationPair
cc = c.CalibrationCape()
vals = {k: P(gain=g, offset=0.0) for k, g in (("dac_V_Hrv", 1e-3), ("adc_C_Hrv", 2e-9), ("adc_V_Sense", 3e-6))}
h = c.CalibrationHarvester(**vals)
raw = bytearray(cc.to_bytestr())
# sanity of defaults: any non zero offset?
import struct
n = len(raw) // 8
base = list(struct.unpack(">%dd" % n, raw))
for i in range(n):
    v = list(base)
    v[i] = 0.0
    try:
        d = c.CalibrationCape.from_bytestr(struct.pack(">%dd" % n, *v))
    except Exception:
        continue  # gain 0 is refused by the model
    back = list(struct.unpack(">%dd" % n, d.to_bytestr()))
    if back != v:
        sys.exit("value %d: %r became %r" % (i, v[i], back[i]))
    if base[i] not in (0.0,) and i % 2 == 0:
        sys.exit("gain 0 accepted at %d" % i)
'''),
"sysfs_offset_bound": dict(
    property="C03", file=CAL, edits=None,
    old='''            "adc_current_offset": round(1e9 * (2**0) * self.adc_C_Hrv.offset),
''', new='''            "adc_current_offset": int(1e9 * (2**0) * self.adc_C_Hrv.offset),
''',
    needs="an offset whose nano-ampere value has a fraction above one half",
    breaks="the harvester current offset handed to the kernel module is truncated instead of rounded",
    demo=HDR + '''
from shepherd_core.data_models.base import calibration as c
h = c.CalibrationHarvester(adc_C_Hrv=c.CalibrationPair(gain=2e-9, offset=-3.75e-9))
x = h.export_for_sysfs()["adc_current_offset"]
sys.exit(0 if x == -4 else "offset %r" % x)
'''),
"append_len_voltage_only": dict(
    property="C05", file=R + "writer.py",
    old="len_new = min(voltage.size, current.size)", new="len_new = voltage.size",
    needs="a current buffer shorter than the voltage buffer, handed over with a scalar timestamp",
    breaks="the append fails after growing the datasets, recording gets padded with zeros",
    demo=HDR + '''
from shepherd_core import Writer, Reader
p = Path(tempfile.mkdtemp()) / "a.h5"
w = Writer(p, verbose=None)
try:
    w.append_iv_data_raw(0, np.arange(100, 130, dtype="u4"), np.arange(20, dtype="u4"))
except Exception as x:
    pass
ok = w.ds_voltage.shape == w.ds_current.shape == w.ds_time.shape == (20,)
ok = ok and list(w.ds_voltage[:]) == list(range(100, 120))
w.h5file.close()
sys.exit(0 if ok else "wrong")
'''),
"read_buffers_default_size": dict(
    property="C07", file=R + "reader.py",
    old="end_max = int(self.ds_voltage.shape[0] // n_samples_per_buffer)",
    new="end_max = self.buffers_n",
    needs="a custom number of samples per buffer",
    breaks="with a smaller buffer size only the first part of the file is visited",
    demo=REC + '''
from shepherd_core import Reader
p = Path(tempfile.mkdtemp()) / "a.h5"
rec(p, 30_000)
with Reader(p, verbose=None) as r:
    n = sum(len(b[1]) for b in r.read_buffers(n_samples_per_buffer=2_500, is_raw=True))
sys.exit(0 if n == 30_000 else str(n))
'''),
"energy_last_single_sample": dict(
    property="C10", file=R + "reader.py",
    old='''            0,
            self.ds_voltage.shape[0],
            self.max_elements,
            desc="energy",''',
    new='''            0,
            self.ds_voltage.shape[0] - 1,
            self.max_elements,
            desc="energy",''',
    needs="a recording with one sample more than a multiple of the processing block",
    breaks="the energy of the last sample is lost when it is alone in its processing block",
    demo=REC + '''
from shepherd_core import Reader
p = Path(tempfile.mkdtemp()) / "a.h5"
rec(p, 20_000)
with Reader(p, verbose=None) as r:
    a = r.energy()
    r.max_elements = 19_999
    b = r.energy()
sys.exit(0 if abs(a - b) <= 1e-12 * a else "%r %r" % (a, b))
'''),
"unique_path_suffix": dict(
    property="C11", file=R + "writer.py",
    old="        if not path.exists():\n            return path\n        counter += 1",
    new="        if not path.exists() or counter >= 8:\n            return path\n        counter += 1",
    needs="nine earlier recordings with the same name",
    breaks="from the tenth recording of a name on, earlier recordings are overwritten",
    demo=REC + '''
d = Path(tempfile.mkdtemp())
seen = {}
for i in range(13):
    rec(d / "a.h5", 10_000 + 0 * i)
    now = {f.name: f.stat().st_ino for f in d.iterdir()}
    if len(now) != i + 1:
        sys.exit("recording %d replaced another one" % i)
'''),
"uart_chunk_unlimited": dict(
    property="C13", file=R + "decoder_waveform/uart.py",
    old="if steps > self.frame_length:", new="if steps > self.frame_length - 1:",
    needs="a byte whose upper bits are a long run of ones or zeros",
    breaks="symbols with eight equal ticks in a row are cut short",
    demo=HDR + '''
from shepherd_core.decoder_waveform import Uart
def sig(data, tick):
    t, out, last = 1.0, [[0.0, 1]], 1
    def put(v, n):
        nonlocal t, last
        if v != last:
            out.append([t, v]); last = v
        t += n * tick
    for b in data:
        for v in [0] + [(b >> i) & 1 for i in range(8)] + [1, 1, 1]:
            put(v, 1)
    put(1, 200)
    out.append([t, 0])
    return np.array(out, dtype=float)
for b in range(1, 256):
    u = Uart(sig([0x55, b, 0x31], 1.003e-4), baud_rate=10_000)
    got = [ord(c) for c in u.get_symbols()[:3, 1]]
    if got != [0x55, b, 0x31]:
        sys.exit("%x -> %r" % (b, got))
'''),
}
