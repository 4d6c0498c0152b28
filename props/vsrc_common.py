"""shared by C18..C22: converter registers and model from symbolic values"""

# (register, lowest, highest) - the whole u32 range of the model
U32 = 2**32 - 1
REGS = {
    "interval_startup_delay_drain_n": 0, "V_input_max_uV": 10_000_000, "I_input_max_nA": 4_200_000_000,
    "V_input_drop_uV": 0, "R_input_kOhm_n22": 0, "Constant_us_per_nF_n28": 26844, "V_intermediate_init_uV": 3_000_000,
    "I_intermediate_leak_nA": 0, "V_enable_output_threshold_uV": 1, "V_disable_output_threshold_uV": 0,
    "dV_enable_output_uV": 0, "interval_check_thresholds_n": 0, "V_pwr_good_enable_threshold_uV": 2_800_000,
    "V_pwr_good_disable_threshold_uV": 2_200_000, "immediate_pwr_good_signal": 1, "V_output_log_gpio_threshold_uV": 0,
    "V_input_boost_threshold_uV": 0, "V_intermediate_max_uV": 10_000_000, "V_output_uV": 2_400_000,
    "V_buck_drop_uV": 0, "LUT_input_V_min_log2_uV": 7, "LUT_input_I_min_log2_nA": 8, "LUT_output_I_min_log2_nA": 8,
}


def mode(storage=False, boost=False, buck=False, log_mid=False, feedback=False):
    return 1 * storage + 2 * boost + 4 * buck + 8 * log_mid + 16 * feedback


def regs(mode, inp=255, out=16, **kw):
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    d = dict(REGS, converter_mode=mode)
    d["LUT_inp_efficiency_n8"] = [[inp] * 12 for _ in range(12)] if not isinstance(inp, list) else inp
    d["LUT_out_inv_efficiency_n4"] = [out] * 12 if not isinstance(out, list) else out
    for k in kw:
        if k not in d:
            raise KeyError(k)
    d.update(kw)
    return ConverterPRUConfig(**d)


def emu_cal(sx, offset_lo=0.0, offset_hi=0.0, gain=False):
    """calibration of the emulator, ADC current optionally symbolic"""
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair
    if not gain:
        return CalibrationEmulator()
    return CalibrationEmulator(adc_C_A=CalibrationPair(gain=sx.real("adc_gain", 1e-9, 1e-6),
                                                       offset=sx.real("adc_off", offset_lo, offset_hi)))


def converter(sx, cfg, cal=None):
    from shepherd_core.vsource.virtual_converter_model import PruCalibration, VirtualConverterModel
    return VirtualConverterModel(cfg, PruCalibration(cal))


def setstate(sx, obj, **kw):
    for k, v in kw.items():
        sx.need(obj, k)
        setattr(obj, k, v)
