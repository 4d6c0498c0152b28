C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
vs = C + "data_models/content/virtual_source.py"
vh = C + "data_models/content/virtual_harvester.py"
sm = C + "vsource/virtual_source_model.py"
ss = C + "vsource/virtual_source_simulation.py"
hs = C + "vsource/virtual_harvester_simulation.py"
tm = C + "vsource/target_model.py"
pa = C + "fw_tools/patcher.py"
co = C + "fw_tools/converter.py"
va = C + "fw_tools/validation.py"
cm = C + "data_models/base/cal_measurement.py"
cli = D + "cli.py"
E = [
("vs_sqrt", vs, [("""            dV_output_en_thrs_mV = v_old - pow(
                pow(v_old, 2) - (c_out / c_store) * pow(v_out, 2),
                0.5,
            )
""", """            ratio = c_out / c_store
            dV_output_en_thrs_mV = v_old - (v_old**2 - ratio * v_out**2) ** 0.5
"""), ("v_out * (1 - pow(1 - c_out / c_store, 0.5))", "v_out - v_out * (1 - ratio) ** 0.5")], ["C15", "C16"]),
("vs_math_sqrt", vs, [("""            dV_output_en_thrs_mV = v_old - pow(
                pow(v_old, 2) - (c_out / c_store) * pow(v_out, 2),
                0.5,
            )
""", """            import math

            rest = v_old * v_old - (c_out / c_store) * v_out * v_out
            dV_output_en_thrs_mV = v_old - math.sqrt(rest) if rest >= 0 else 0
""")], ["C15", "C16"]),
("vs_guard_helper", vs, [("""        if not (isinstance(dV_output_en_thrs_mV, (int, float)) and (dV_output_en_thrs_mV >= 0)):
            dV_output_en_thrs_mV = 0
""", """        if isinstance(dV_output_en_thrs_mV, complex) or dV_output_en_thrs_mV < 0:
            dV_output_en_thrs_mV = 0
""")], ["C15", "C16"]),
("vs_max", vs, [("""            if self.V_intermediate_disable_threshold_mV > V_pre_output_mV:
                values["V_disable_output_threshold_mV"] = self.V_intermediate_disable_threshold_mV
            else:
                values["V_disable_output_threshold_mV"] = V_pre_output_mV
""", """            values["V_disable_output_threshold_mV"] = max(
                self.V_intermediate_disable_threshold_mV, V_pre_output_mV
            )
""")], ["C15", "C16"]),
("vs_mode_or", vs, [("""        return (
            1 * int(enable_storage)
            + 2 * int(enable_boost)
            + 4 * int(self.enable_buck)
            + 8 * int(log_intermediate_node)
            + 16 * int(enable_feedback)
        )
""", """        flags = [enable_storage, enable_boost, self.enable_buck, log_intermediate_node, enable_feedback]
        return sum(1 << n for n, flag in enumerate(flags) if flag)
""")], ["C15"]),
("vs_mode_bits", vs, [("""        return (
            1 * int(enable_storage)
            + 2 * int(enable_boost)
            + 4 * int(self.enable_buck)
            + 8 * int(log_intermediate_node)
            + 16 * int(enable_feedback)
        )
""", """        mode = 0
        if enable_storage:
            mode |= 0b1
        if enable_boost:
            mode |= 0b10
        if self.enable_buck:
            mode |= 0b100
        if log_intermediate_node:
            mode |= 0b1000
        if enable_feedback:
            mode |= 0b1_0000
        return mode
""")], ["C15"]),
("vs_cap_const", vs, [("""        C_cap_uF = max(self.C_intermediate_uF, 0.001)
        return int((10**3 * (2**28)) // (C_cap_uF * samplerate_sps_default))
""", """        C_cap_uF = self.C_intermediate_uF if self.C_intermediate_uF > 0.001 else 0.001
        denominator = samplerate_sps_default * C_cap_uF
        return int(1000 * 2**28 // denominator)
""")], ["C15", "C18"]),
("vs_1000", vs, [("V_input_max_uV=round(data.V_input_max_mV * 1e3)", "V_input_max_uV=round(1000 * data.V_input_max_mV)"),
  ("R_input_kOhm_n22=round(data.R_input_mOhm * (1e-6 * 2**22))", "R_input_kOhm_n22=round(data.R_input_mOhm * 2**22 * 1e-6)")], ["C15"]),
("vh_ratio_clip", vh, [("""        interval_ms = min(max(self.interval_ms, time_min_ms), 1_000_000)
        duration_ms = min(max(self.duration_ms, time_min_ms), interval_ms)
""", """        interval_ms = self.interval_ms
        if interval_ms < time_min_ms:
            interval_ms = time_min_ms
        if interval_ms > 1_000_000:
            interval_ms = 1_000_000
        duration_ms = sorted((self.duration_ms, time_min_ms))[1]
        duration_ms = min(duration_ms, interval_ms)
""")], ["C17"]),
("vh_helper", vh, [("""            voltage_uV=round(data.voltage_mV * 10**3),
            voltage_min_uV=round(data.voltage_min_mV * 10**3),
            voltage_max_uV=round(data.voltage_max_mV * 10**3),
""", """            **{
                f"{name}_uV": round(getattr(data, f"{name}_mV") * 1000)
                for name in ("voltage", "voltage_min", "voltage_max")
            },
"""), ("setpoint_n8=round(min(255, data.setpoint_n * 2**8))", "setpoint_n8=min(255, round(data.setpoint_n * 256))")], ["C17"]),
("vh_window_table", vh, [("""        if dtype_in == EnergyDType.ivcurve:
            return self.samples_n * (1 + self.wait_cycles)
        if dtype_in == EnergyDType.ivsample:
            return 0
        if dtype_in == EnergyDType.isc_voc:
            return 2 * (1 + self.wait_cycles)
        raise NotImplementedError
""", """        points = {
            EnergyDType.ivcurve: self.samples_n,
            EnergyDType.ivsample: 0,
            EnergyDType.isc_voc: 2,
        }
        if dtype_in not in points:
            raise NotImplementedError
        return points[dtype_in] * (self.wait_cycles + 1)
""")], ["C17"]),
("vh_chained", vh, [("""        if self.voltage_min_mV > self.voltage_max_mV:
            raise ValueError("Voltage min > max")
        if self.voltage_mV < self.voltage_min_mV:
            raise ValueError("Voltage below min")
        if self.voltage_mV > self.voltage_max_mV:
            raise ValueError("Voltage above max")
""", """        if not (self.voltage_min_mV <= self.voltage_mV <= self.voltage_max_mV):
            raise ValueError("Voltage out of range")
""")], ["C17"]),
("sm_locals", sm, [("""        self.W_inp_fWs += P_inp_fW
        self.W_out_fWs += P_out_fW
""", """        self.W_inp_fWs = self.W_inp_fWs + P_inp_fW
        self.W_out_fWs = P_out_fW + self.W_out_fWs
"""), ("        return V_mid_uV if self.cnv.get_state_log_intermediate() else V_out_uV\n", """        if self.cnv.get_state_log_intermediate():
            return V_mid_uV
        return V_out_uV
"""), ("I_out_nA * 10**-9", "1e-9 * I_out_nA")], ["C19", "C22"]),
("ss_buffers", ss, [("""        for _n in range(len(_t)):
            v_uV[_n] = src.iterate_sampling(
                V_inp_uV=int(v_uV[_n]),
                I_inp_nA=int(i_nA[_n]),
                I_out_nA=i_out_nA,
            )
            i_out_nA = target.step(int(v_uV[_n]), pwr_good=src.cnv.get_power_good())
            i_nA[_n] = i_out_nA
""", """        for _n, (v_in, i_in) in enumerate(zip(v_uV.copy(), i_nA.copy())):
            v_out_uV = src.iterate_sampling(int(v_in), int(i_in), i_out_nA)
            v_uV[_n] = v_out_uV
            i_out_nA = target.step(int(v_uV[_n]), pwr_good=src.cnv.get_power_good())
            i_nA[_n] = i_out_nA
""")], ["C22"]),
("ss_sum", ss, [("        e_out_Ws += (v_uV * i_nA).sum() * 1e-15 * file_inp.sample_interval_s", "        e_out_Ws += 1e-15 * file_inp.sample_interval_s * np.sum(v_uV * i_nA)"),
  ("        v_uV = 1e6 * cal_inp.voltage.raw_to_si(v_inp)\n        i_nA = 1e9 * cal_inp.current.raw_to_si(i_inp)\n", "        i_nA = cal_inp.current.raw_to_si(i_inp) * 10**9\n        v_uV = cal_inp.voltage.raw_to_si(v_inp) * 10**6\n")], ["C22"]),
("hs_len", hs, [("        length = min(v_uV.size, i_nA.size)\n        for _n in range(length):\n            v_uV[_n], i_nA[_n] = hrv.ivcurve_sample(\n                _voltage_uV=int(v_uV[_n]), _current_nA=int(i_nA[_n])\n            )\n", "        for _n in range(len(v_uV)):\n            sample = hrv.ivcurve_sample(int(v_uV[_n]), int(i_nA[_n]))\n            v_uV[_n] = sample[0]\n            i_nA[_n] = sample[1]\n"),
  ("si_to_raw(v_uV / 1e6)", "si_to_raw(v_uV * 1e-6)")], ["C21", "C22"]),
("tm_ternary", tm, [("""        if pwr_good or not self.ctrl:
            return voltage_uV / self.R_kOhm  # = nA
        return 0


class DiodeTarget""", """        return 0 if (self.ctrl and not pwr_good) else voltage_uV / self.R_kOhm


class DiodeTarget"""), ("""        if voltage_uV <= 0:
            return 0  # supply is switched off
        return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
""", """        power_fW = self.P_active_fW if pwr_good else self.P_sleep_fW
        if voltage_uV > 0:
            return power_fW / voltage_uV
        return 0
""")], ["C22"]),
("pa_struct", pa, [("""    value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)
""", """    value_raw = struct.pack("<H" if elf.endian == "little" else ">H", value)
"""), ("from pathlib import Path\n", "import struct\nfrom pathlib import Path\n")], ["C30"]),
("pa_bytes", pa, [("""    value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)
""", """    parts = [value & 0xFF, value >> 8]
    value_raw = bytes(parts if elf.endian == "little" else parts[::-1])
"""), ("""    file_new = file_elf.with_name(file_elf.stem + "_" + str(value) + file_elf.suffix)
""", """    file_new = file_elf.parent / f"{file_elf.stem}_{value}{file_elf.suffix}"
""")], ["C30"]),
("pa_read_early", pa, [("""    if not find_symbol(file_elf, symbol):
        return None
    if ELF is None:
        raise RuntimeError(elf_error_text)
    elf = ELF(path=file_elf)
    addr = elf.symbols[symbol]
    value_raw = elf.read(address=addr, count=length)[-length:]
    elf.close()
    return int.from_bytes(bytes=value_raw, byteorder=elf.endian, signed=False)
""", """    if find_symbol(file_elf, symbol):
        elf = ELF(path=file_elf)
        data = elf.read(elf.symbols[symbol], length)
        elf.close()
        return int.from_bytes(data[len(data) - length :], elf.endian)
    return None
""")], ["C30"]),
("co_with", co, [("""    with file_path.resolve().open("rb") as file:
        file_content = file.read()
    return hashlib.sha3_224(file_content).hexdigest()
""", """    hasher = hashlib.sha3_224()
    hasher.update(file_path.resolve().read_bytes())
    return hasher.hexdigest()
"""), ("""    with file_path.resolve().open("wb") as file:
        file.write(file_content)
""", """    file_path.resolve().write_bytes(file_content)
"""), ("    if not file_path.parent.exists():\n        file_path.parent.mkdir(parents=True)\n", "    file_path.parent.mkdir(parents=True, exist_ok=True)\n")] , ["C30", "C37"]),
("co_suffix_table", co, [("""    if data_type == FirmwareDType.base64_elf:
        file = file_path.with_suffix(".elf")
        base64_to_file(data, file)
    elif data_type == FirmwareDType.base64_hex:
        file = file_path.with_suffix(".hex")
        base64_to_file(data, file)
    elif""", """    embedded = {FirmwareDType.base64_elf: ".elf", FirmwareDType.base64_hex: ".hex"}
    if data_type in embedded:
        file = file_path.with_suffix(embedded[data_type])
        base64_to_file(data, file)
    elif""")], ["C37"]),
("va_msp", va, [("""        if ih.minaddr() != 0x4000:
            return False
        if 0xFFFE not in ih.addresses():
            return False
        value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
        if not 0x4000 <= value < 0xFF80:
            return False
""", """        addresses = set(ih.addresses())
        if min(addresses, default=None) != 0x4000 or 0xFFFE not in addresses:
            return False
        low, high = ih.gets(0xFFFE, 2)
        value = low + 256 * high
        if value < 0x4000 or value >= 0xFF80:
            return False
""")], ["C30"]),
("va_invert", va, [("""    if is_hex(file):
        ih = IntelHex(file.as_posix())
        if ih.minaddr() != 0x4000:
            return False
""", """    if not is_hex(file):
        return False
    else:
        ih = IntelHex(file.as_posix())
        if ih.minaddr() != 0x4000:
            return False
""")], ["C30"]),
("cm_arrays", cm, [("""    x = np.empty(len(data))
    y = np.empty(len(data))
    for i, pair in enumerate(data):
        x[i] = pair.shepherd_raw
        y[i] = pair.reference_si

    model = np.polyfit(x, y, 1)
    offset = model[1]
    gain = model[0]
""", """    x = np.array([pair.shepherd_raw for pair in data], dtype=float)
    y = np.array([pair.reference_si for pair in data], dtype=float)

    gain, offset = model = np.polyfit(x, y, 1)
"""), ("""    ybar = np.sum(y) / len(y)
    ssreg = np.sum((yhat - ybar) ** 2)
    sstot = np.sum((y - ybar) ** 2)
""", """    ybar = np.mean(y)
    ssreg = np.sum(np.square(yhat - ybar))
    sstot = ((y - ybar) ** 2).sum()
""")], ["C36"]),
("cm_residual", cm, [("""    ssreg = np.sum((yhat - ybar) ** 2)
    sstot = np.sum((y - ybar) ** 2)
    # note: constant reference-values do not define a line
    rval = ssreg / sstot if np.ptp(y) > 0 else 0.0
""", """    ssres = np.sum((y - yhat) ** 2)
    sstot = np.sum((y - ybar) ** 2)
    # note: constant reference-values do not define a line
    rval = 1 - ssres / sstot if np.max(y) > np.min(y) else 0.0
""")], ["C36"]),
("cm_to_cal", cm, [("""        dv = self.model_dump()
        dcal = CalibrationHarvester().model_dump()
        for key in dv:
            dcal[key] = meas_to_cal(self[key], f"hrv_{key}")
        return CalibrationHarvester(**dcal)
""", """        pairs = {key: meas_to_cal(self[key], f"hrv_{key}") for key in self.model_dump()}
        return CalibrationHarvester(**{**CalibrationHarvester().model_dump(), **pairs})
""")], ["C36"]),
("cli_validate", cli, [("""        valid_file = True
        try:
            with Reader(file, verbose=verbose_level > 2) as shpr:
                valid_file &= shpr.is_valid()
                valid_file &= shpr.check_timediffs()
                valid_dir &= valid_file
                if not valid_file:
                    logger.error(" -> File '%s' was NOT valid", file.name)
        except Exception:
            valid_dir = False
            logger.exception("ERROR: Will skip file. It caused an exception.")
    sys.exit(int(not valid_dir))
""", """        try:
            with Reader(file, verbose=verbose_level > 2) as shpr:
                valid_file = all([shpr.is_valid(), shpr.check_timediffs()])
        except Exception:
            valid_file = False
            logger.exception("ERROR: Will skip file. It caused an exception.")
        else:
            if not valid_file:
                logger.error(" -> File '%s' was NOT valid", file.name)
        if not valid_file:
            valid_dir = False
    sys.exit(0 if valid_dir else 1)
""")], ["C34"]),
("cli_factor", cli, [("""                file_factor = ds_factor
                if file_factor is None and sample_rate is not None and sample_rate >= 1:
                    file_factor = shpr.samplerate_sps / sample_rate

                if isinstance(file_factor, (float, int)) and file_factor >= 1:
                    ds_list = [file_factor]
                else:
                    ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]

                for _factor in ds_list:
                    path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                    logger.info("Created %s", path_file.name)
""", """                ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
                if ds_factor is not None:
                    wanted = ds_factor
                elif sample_rate is not None and sample_rate >= 1:
                    wanted = shpr.samplerate_sps / sample_rate
                else:
                    wanted = 0
                if wanted >= 1:
                    ds_list = [wanted]
                while ds_list:
                    path_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_list.pop(0))
                    logger.info("Created %s", path_file.name)
""")], ["C34"]),
("cli_extract", cli, [("""    if not isinstance(ds_factor, (float, int)) or ds_factor < 1:
        ds_factor = 1000
        logger.info("DS-Factor was invalid was reset to 1'000")
    for file in files:
        logger.info("Extracting IV-Samples from '%s' ...", file.name)
        try:
            with Reader(file, verbose=verbose_level > 2) as shpr:
                out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                with Reader(out_file, verbose=verbose_level > 2) as shpd:
                    shpd.save_csv(shpd["data"], separator, raw=raw)
""", """    factor_ok = isinstance(ds_factor, (float, int)) and ds_factor >= 1
    ds_factor = ds_factor if factor_ok else 1000
    for file in files:
        logger.info("Extracting IV-Samples from '%s' ...", file.name)
        try:
            with Reader(file, verbose=verbose_level > 2) as shpr:
                out_file = shpr.cut_and_downsample_to_file(start_s=start, end_s=end, ds_factor=ds_factor)
            with Reader(out_file, verbose=verbose_level > 2) as shpd:
                shpd.save_csv(shpd.h5file["data"], separator=separator, raw=raw)
""")], ["C34"]),
]
