"""C02 cape calibration <-> EEPROM bytes"""
BOUNDS = "all 16 doubles symbolic: gains in (0, 1e6], offsets in [-1e6, 1e6]; byte strings of 0..17 doubles and of 16 doubles +-1 byte"
OUTSIDE = "bit pattern of a single IEEE double (struct is modelled as an exact big-endian double codec)"
STUBS = ["struct.pack/unpack: exact codec of doubles with byte order and length check"]
CH = [("harvester", c) for c in ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")] + [
    ("emulator", c) for c in ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")]


def cases(tier):
    out = [("to_bytes", "to_bytes", {}), ("roundtrip", "roundtrip", {}),
           ("from_bytes", "from_bytes", {}), ("cape_kept", "cape_kept", {})]
    for n in (0, 1, 8, 15, 17, 32):
        out.append((f"wrong_length/{n}", "wrong_length", {"n": n, "cut": 0}))
    out += [(f"wrong_length/16{c:+d}B", "wrong_length", {"n": 16, "cut": c}) for c in (-1, 1, -8, 8)]
    return out


def cal_cape(sx):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    d, vals = {"harvester": {}, "emulator": {}}, []
    for dev, ch in CH:
        g = sx.real(f"{ch}_gain", 1e-9, 1e6)
        o = sx.real(f"{ch}_offset", -1e6, 1e6)
        d[dev][ch] = {"gain": g, "offset": o}
        vals += [g, o]
    return CalibrationCape(**d), vals


def to_bytes(sx):
    cal, vals = cal_cape(sx)
    data = cal.to_bytestr()
    sx.check("128 bytes", len(data) == 128)
    got = sx.struct.unpack(">16d", data)
    for i, (g, v) in enumerate(zip(got, vals)):
        sx.check_eq(f"double {i}", g, v)
        sx.observe(f"d{i}", g)


def same(sx, cal, vals):
    for i, (dev, ch) in enumerate(CH):
        p = getattr(getattr(cal, dev), ch)
        sx.check_eq(f"{ch} gain", p.gain, vals[2 * i])
        sx.check_eq(f"{ch} offset", p.offset, vals[2 * i + 1])
        sx.observe(f"{ch}", p.gain)


def roundtrip(sx):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    cal, vals = cal_cape(sx)
    same(sx, CalibrationCape.from_bytestr(cal.to_bytestr()), vals)


def from_bytes(sx):
    """foreign bytes: accepted exactly when every gain is positive"""
    from shepherd_core.data_models.base.calibration import CalibrationCape
    vals = [sx.real(f"x{i}", -1e6, 1e6) for i in range(16)]
    data = sx.struct.pack(">16d", *vals)
    good = sx.is_true(sx.both(*[vals[2 * i] > 0 for i in range(8)]))
    ok, cal = sx.attempt(lambda: CalibrationCape.from_bytestr(data), ValueError)
    sx.check("accepted iff all gains positive", ok == good)
    sx.observe("ok", ok)
    if ok:
        sx.cover("accepted")
        same(sx, cal, vals)
    else:
        sx.cover("rejected")


def cape_kept(sx):
    from shepherd_core.data_models.base.calibration import CalibrationCape, CapeData
    cal, vals = cal_cape(sx)
    cape = CapeData(serial_number="0815", version="24C1")
    res = CalibrationCape.from_bytestr(cal.to_bytestr(), cape)
    sx.check("cape data kept", res.cape == cape)
    same(sx, res, vals)


def wrong_length(sx, n, cut):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    vals = [sx.real(f"x{i}", 1e-6, 1e6) for i in range(n)]
    data = sx.struct.pack(f">{n}d", *vals)
    if cut < 0:
        data = data[:cut]
    elif cut > 0:
        data = data + bytes(cut)
    ok, _ = sx.attempt(lambda: CalibrationCape.from_bytestr(data), Exception)
    sx.check("refused", not ok)
