C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
cnv = C + "vsource/virtual_converter_model.py"
hrv = C + "vsource/virtual_harvester_model.py"
cal = C + "data_models/base/calibration.py"
uart = C + "decoder_waveform/uart.py"
wr = C + "writer.py"
E = [
("cal_np_maximum", cal, [("""                values_si[values_si < 0.0] = 0.0
                # if pyright still complains, cast with .astype(float)
""", """                values_si = np.maximum(values_si, 0.0)
"""), ("""            values_raw[values_raw < 0.0] = 0.0
            values_raw = np.around(values_raw)
""", """            values_raw = np.round(np.clip(values_raw, 0.0, None))
""")], ["C01", "C05", "C08"]),
("cal_np_where", cal, [("""            values_raw[values_raw < 0.0] = 0.0
            values_raw = np.around(values_raw)
""", """            values_raw = np.rint(np.where(values_raw < 0.0, 0.0, values_raw))
"""), ("""            values_raw = round(max(values_raw, 0.0))
""", """            values_raw = 0 if values_raw < 0 else round(values_raw)
""")], ["C01", "C05"]),
("cal_helper", cal, [("""    def si_to_raw(self, values_si: Calc_t) -> Calc_t:
        \"\"\"Convert between physical units and raw unsigned integers.\"\"\"
        values_raw = (values_si - self.offset) / self.gain
""", """    def _normalize(self, values):
        return (values - self.offset) / self.gain

    def si_to_raw(self, values_si: Calc_t) -> Calc_t:
        \"\"\"Convert between physical units and raw unsigned integers.\"\"\"
        values_raw = self._normalize(values_si)
"""), ("values_si = values_raw * self.gain + self.offset", "values_si = self.offset + self.gain * values_raw")], ["C01", "C05", "C08", "C16"]),
("sysfs_split", cal, [("""        for key, value in cal_set.items():
            if (("gain" in key) and not (0 <= value < 2**32)) or (
                ("offset" in key) and not (-(2**31) <= value < 2**31)
            ):
                msg = f"Value ({key}={value}) exceeds uint32-container"
                raise ValueError(msg)
        return cal_set
""", """        limits = {"gain": (0, 2**32 - 1), "offset": (-(2**31), 2**31 - 1)}
        for key, value in cal_set.items():
            low, high = limits[key.rsplit("_", 1)[-1]]
            if value < low or value > high:
                raise ValueError(f"Value ({key}={value}) exceeds uint32-container")
        return cal_set
""")], ["C03"]),
("sysfs_any", cal, [("""        for key, value in cal_set.items():
            if (("gain" in key) and not (0 <= value < 2**32)) or (
                ("offset" in key) and not (-(2**31) <= value < 2**31)
            ):
                msg = f"Value ({key}={value}) exceeds uint32-container"
                raise ValueError(msg)
        return cal_set
""", """        gains = [v for k, v in cal_set.items() if k.endswith("gain")]
        offsets = [v for k, v in cal_set.items() if k.endswith("offset")]
        if any(v < 0 or v >= 2**32 for v in gains) or not all(
            -(2**31) <= v < 2**31 for v in offsets
        ):
            raise ValueError(f"Value in {cal_set} exceeds uint32-container")
        return cal_set
""")], ["C03"]),
("bytestr_loop", cal, [("""        for _i, walk in enumerate(lw2):
            # hardcoded fixed depth ... bad but easy
            dv[walk[0]][walk[1]][walk[2]] = float(values[_i])
""", """        for (group, pair, param, _old), value in zip(lw2, values):
            dv[group][pair].update({param: float(value)})
"""), ("""        values = [walk[-1] for walk in lw if isinstance(walk[-1], float)]
        return struct.pack(">" + len(values) * "d", *values)
""", """        values = []
        for walk in lw:
            if not isinstance(walk[-1], float):
                continue
            values.append(walk[-1])
        return struct.pack(f">{len(values)}d", *values)
""")], ["C02"]),
("bytestr_iter", cal, [("""        values = struct.unpack(">" + len(lw2) * "d", data)
""", """        fmt = struct.Struct(f">{len(lw2)}d")
        values = fmt.unpack(data)
"""), ("""        return struct.pack(">" + len(values) * "d", *values)
""", """        return b"".join(struct.pack(">d", v) for v in values)
""")], ["C02"]),
("adc_residue", cnv, [("""                self.negative_residue_nA = self.negative_residue_nA - I_nA
                self.negative_residue_nA = min(self.negative_residue_nA, self.RESIDUE_MAX_nA)
                I_nA = 0
""", """                residue = self.negative_residue_nA - I_nA
                self.negative_residue_nA = (
                    residue if residue < self.RESIDUE_MAX_nA else self.RESIDUE_MAX_nA
                )
                return 0
""")], ["C22", "C16"]),
("inp_power_helper", cnv, [("""        # Input diode
        if input_voltage_uV > self._cfg.V_input_drop_uV:
            input_voltage_uV -= self._cfg.V_input_drop_uV
        else:
            input_voltage_uV = 0.0

        input_voltage_uV = min(input_voltage_uV, self._cfg.V_input_max_uV)

        input_current_nA = min(input_current_nA, self._cfg.I_input_max_nA)

        self.V_input_uV = input_voltage_uV
""", """        input_voltage_uV, input_current_nA = self._limit_input(input_voltage_uV, input_current_nA)
        self.V_input_uV = input_voltage_uV
"""), ("""    def calc_out_power(self""", """    def _limit_input(self, voltage_uV: float, current_nA: float):
        cfg = self._cfg
        voltage_uV = max(0.0, voltage_uV - cfg.V_input_drop_uV)
        return min(voltage_uV, cfg.V_input_max_uV), min(current_nA, cfg.I_input_max_nA)

    def calc_out_power(self""")], ["C16", "C18", "C20"]),
("cap_clamp", cnv, [("""        self.V_mid_uV = min(self.V_mid_uV, self._cfg.V_intermediate_max_uV)
        self.V_mid_uV = max(self.V_mid_uV, 1)
        return round(self.V_mid_uV)""", """        if self.V_mid_uV > self._cfg.V_intermediate_max_uV:
            self.V_mid_uV = self._cfg.V_intermediate_max_uV
        if self.V_mid_uV < 1:
            self.V_mid_uV = 1
        return self.get_V_intermediate_uV()""")], ["C16", "C18"]),
("cap_divfirst", cnv, [("""            V_mid_prot_uV = max(1.0, self.V_mid_uV)
            P_sum_fW = self.P_inp_fW - self.P_out_fW
            I_mid_nA = P_sum_fW / V_mid_prot_uV
            dV_mid_uV = I_mid_nA * self.Constant_us_per_nF
            self.V_mid_uV += dV_mid_uV
""", """            dE = (self.P_inp_fW - self.P_out_fW) * self.Constant_us_per_nF
            self.V_mid_uV = self.V_mid_uV + dE / max(1.0, self.V_mid_uV)
""")], ["C16"]),
("lut_min", cnv, [("""        if pos_v >= LUT_SIZE:
            pos_v = LUT_SIZE - 1
        if pos_c >= LUT_SIZE:
            pos_c = LUT_SIZE - 1
""", """        pos_v = min(pos_v, LUT_SIZE - 1)
        pos_c = min(pos_c, LUT_SIZE - 1)
""")], ["C20"]),
("lut_bitlength", cnv, [("""        pos_c = int(math.log2(current_n)) if (current_n > 0) else 0
""", """        pos_c = max(0, int(current_n).bit_length() - 1)
""")], ["C20"]),
("lut_shift", cnv, [("int(voltage_uV / (2**self._cfg.LUT_input_V_min_log2_uV))", "int(voltage_uV) >> self._cfg.LUT_input_V_min_log2_uV"), ("int(math.log2(current_n)) if (current_n > 0) else 0", "math.floor(math.log2(current_n)) if current_n else 0")], ["C20"]),
("states_reorder", cnv, [("""        if self.is_outputting or self.interval_startup_disabled_drain_n > 0:
            if (not self.enable_buck) or (
                self.V_mid_uV <= self._cfg.V_output_uV + self._cfg.V_buck_drop_uV
            ):
                if self.V_mid_uV > self._cfg.V_buck_drop_uV:
                    self.V_out_dac_uV = self.V_mid_uV - self._cfg.V_buck_drop_uV
                else:
                    self.V_out_dac_uV = 0.0
            else:
                self.V_out_dac_uV = self._cfg.V_output_uV
            self.V_out_dac_raw = self._cal.conv_uV_to_dac_raw(self.V_out_dac_uV)
        else:
            self.V_out_dac_uV = 0.0
            self.V_out_dac_raw = 0
""", """        if not self.is_outputting and self.interval_startup_disabled_drain_n <= 0:
            self.V_out_dac_uV = 0.0
            self.V_out_dac_raw = 0
        else:
            headroom_uV = self.V_mid_uV - self._cfg.V_buck_drop_uV
            regulated = self.enable_buck and headroom_uV > self._cfg.V_output_uV
            self.V_out_dac_uV = self._cfg.V_output_uV if regulated else max(0.0, headroom_uV)
            self.V_out_dac_raw = self._cal.conv_uV_to_dac_raw(self.V_out_dac_uV)
"""), ("""            if self.is_outputting:
                if V_mid_uV_now < self.V_disable_output_threshold_uV:
                    self.is_outputting = False
            elif V_mid_uV_now >= self.V_enable_output_threshold_uV:
                self.is_outputting = True
                self.V_mid_uV -= self.dV_enable_output_uV
""", """            was_on = self.is_outputting
            if was_on:
                self.is_outputting = not V_mid_uV_now < self.V_disable_output_threshold_uV
            else:
                self.is_outputting = V_mid_uV_now >= self.V_enable_output_threshold_uV
                if self.is_outputting:
                    self.V_mid_uV -= self.dV_enable_output_uV
""")], ["C16", "C18", "C19"]),
("hrv_cv_swap", hrv, [("""        if compare_now != self.compare_last and step_size_now < self.voltage_step_x4_uV:
            if distance_now < distance_last and distance_now < self.voltage_step_x4_uV:
                self.voltage_hold = _voltage_uV
                self.current_hold = _current_nA
                self.current_delta = _current_nA - self.current_last
                self.voltage_delta = _voltage_uV - self.voltage_last
                # TODO: voltage_delta is static
            elif distance_last < distance_now and distance_last < self.voltage_step_x4_uV:
                self.voltage_hold = self.voltage_last
                self.current_hold = self.current_last
                self.current_delta = _current_nA - self.current_last
                self.voltage_delta = _voltage_uV - self.voltage_last
""", """        if compare_now != self.compare_last and step_size_now < self.voltage_step_x4_uV:
            hold = None
            if distance_now < distance_last:
                if distance_now < self.voltage_step_x4_uV:
                    hold = (_voltage_uV, _current_nA)
            elif distance_last < distance_now and distance_last < self.voltage_step_x4_uV:
                hold = (self.voltage_last, self.current_last)
            if hold is not None:
                self.voltage_hold, self.current_hold = hold
                self.current_delta = _current_nA - self.current_last
                self.voltage_delta = _voltage_uV - self.voltage_last
""")], ["C21"]),
("hrv_hold_max", hrv, [("""                if self.voltage_hold > self.voltage_delta:
                    self.voltage_hold -= self.voltage_delta
                else:
                    self.voltage_hold = 0
                if self.current_hold > self.current_delta:
                    self.current_hold -= self.current_delta
                else:
                    self.current_hold = 0
""", """                self.voltage_hold = max(0, self.voltage_hold - self.voltage_delta)
                self.current_hold = max(0, self.current_hold - self.current_delta)
""")], ["C21"]),
("hrv_dispatch_table", hrv, [("""        if self._cfg.algorithm >= self.HRV_MPPT_OPT:
            return self.ivcurve_2_mppt_opt(_voltage_uV, _current_nA)
        if self._cfg.algorithm >= self.HRV_MPPT_PO:
            return self.ivcurve_2_mppt_po(_voltage_uV, _current_nA)
        if self._cfg.algorithm >= self.HRV_MPPT_VOC:
            return self.ivcurve_2_mppt_voc(_voltage_uV, _current_nA)
        if self._cfg.algorithm >= self.HRV_CV:
            return self.ivcurve_2_cv(_voltage_uV, _current_nA)
""", """        table = (
            (self.HRV_MPPT_OPT, self.ivcurve_2_mppt_opt),
            (self.HRV_MPPT_PO, self.ivcurve_2_mppt_po),
            (self.HRV_MPPT_VOC, self.ivcurve_2_mppt_voc),
            (self.HRV_CV, self.ivcurve_2_cv),
        )
        for limit, fn in table:
            if self._cfg.algorithm >= limit:
                return fn(_voltage_uV, _current_nA)
""")], ["C21"]),
("hrv_po_clip", hrv, [("""        self.interval_step = self.interval_step + 1
        if self.interval_step >= self._cfg.interval_n:
            self.interval_step = 0
""", """        nxt = self.interval_step + 1
        self.interval_step = nxt if nxt < self._cfg.interval_n else 0
"""), ("self.voltage_set_uV = int(self.voc_now * self._cfg.setpoint_n8 / 256)", "self.voltage_set_uV = (self.voc_now * self._cfg.setpoint_n8) // 256")], ["C21"]),
("uart_filter_diff", uart, [("""        data_0 = self.events_sig[:, 1]
        data_1 = np.concatenate([[not data_0[0]], data_0[:-1]])
        data_f = data_0 + data_1
        self.events_sig = self.events_sig[data_f == 1]
""", """        data_0 = self.events_sig[:, 1]
        keep = np.ones(data_0.shape, dtype=bool)
        keep[1:] = data_0[1:] != data_0[:-1]
        self.events_sig = self.events_sig[keep]
""")], ["C13"]),
("uart_npdiff", uart, [("""        time_steps = self.events_sig[1:, 0] - self.events_sig[:-1, 0]
        if any(time_steps < 0):
""", """        time_steps = np.diff(self.events_sig[:, 0])
        if np.any(time_steps < 0):
"""), ("""        dur_steps = self.events_sig[1:, 0] - self.events_sig[:-1, 0]
        dur_steps = np.reshape(dur_steps, (dur_steps.size, 1))
""", """        dur_steps = np.diff(self.events_sig[:, 0]).reshape(-1, 1)
"""), ("""        self.events_sig = np.append(self.events_sig[:-1, :], dur_steps / self.dur_tick, axis=1)
""", """        self.events_sig = np.hstack([self.events_sig[:-1, :], dur_steps / self.dur_tick])
""")], ["C13", "C14"]),
("uart_symbols_bits", uart, [("""                    symbol += (2 ** round(chunk) - 1) << lshift
""", """                    mask = (1 << round(chunk)) - 1
                    symbol |= mask << lshift
"""), ("symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df", "symbol |= ((1 << (self.frame_length - pos_df)) - 1) << pos_df")], ["C13"]),
("uart_symbols_loop", uart, [("""        for time, value, steps in self.events_sig:
            if steps > self.frame_length:
""", """        for event in self.events_sig:
            time, value, steps = event[0], event[1], event[2]
            steps_n = round(steps)
            if steps > self.frame_length:
"""), ("if round(steps) > self.frame_length + 1:", "if steps_n > self.frame_length + 1:")], ["C13"]),
("uart_lines_helper", uart, [("""        content = []
        semi_stop = False
        t_start = None
        line = ""
        for time, symbol in self.events_symbols:
            if semi_stop and symbol != "\\n":
                # lone \\r ended the line before
                content.append((t_start, line))
                t_start = None
                line = ""
            semi_stop = False

            if t_start is None:
                t_start = time
            line += symbol
            if symbol == "\\n":
                content.append((t_start, line))
                t_start = None
                line = ""
            elif symbol == "\\r":
                semi_stop = True
        if len(line) > 0:
            # last line without termination
            content.append((t_start, line))
""", """        content = []
        current = []
        n = len(self.events_symbols)
        for i in range(n):
            time, symbol = self.events_symbols[i]
            current.append((time, symbol))
            ends = symbol == "\\n" or (
                symbol == "\\r" and (i + 1 >= n or self.events_symbols[i + 1][1] != "\\n")
            )
            if ends or i == n - 1:
                content.append((current[0][0], "".join(s for _, s in current)))
                current = []
""")], ["C14"]),
("append_helper", wr, [("""        # resize dataset
        self.ds_time.resize((len_old + len_new,))
        self.ds_voltage.resize((len_old + len_new,))
        self.ds_current.resize((len_old + len_new,))

        # append new data
        self.ds_time[len_old : len_old + len_new] = timestamp[:len_new]
        self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]
        self.ds_current[len_old : len_old + len_new] = current[:len_new]
""", """        total = len_old + len_new
        for dset, data in (
            (self.ds_time, timestamp),
            (self.ds_voltage, voltage),
            (self.ds_current, current),
        ):
            dset.resize((total,))
            dset[len_old:] = data[:len_new]
"""), ("""        len_new = min(voltage.size, current.size)
""", """        len_new = min(len(voltage), current.shape[0])
"""), ("""            time_series_ns = self.sample_interval_ns * np.arange(len_new).astype("u8")
            timestamp = timestamp + time_series_ns
""", """            timestamp = timestamp + np.arange(len_new, dtype="u8") * self.sample_interval_ns
""")], ["C05", "C06", "C08"]),
("append_early", wr, [("""        if isinstance(timestamp, float):
            timestamp = int(timestamp)
        if isinstance(timestamp, int):
            time_series_ns = self.sample_interval_ns * np.arange(len_new).astype("u8")
            timestamp = timestamp + time_series_ns
        if isinstance(timestamp, np.ndarray):
            len_new = min(len_new, timestamp.size)
        else:
            raise TypeError("timestamp-data was not usable")
""", """        if isinstance(timestamp, (int, float)):
            t0 = int(timestamp)
            steps = np.arange(len_new).astype("u8")
            timestamp = np.add(t0, np.multiply(self.sample_interval_ns, steps))
        elif not isinstance(timestamp, np.ndarray):
            raise TypeError("timestamp-data was not usable")
        len_new = min(len_new, timestamp.size)
""")], ["C05", "C08"]),
("align_divmod", wr, [("""        n_buff = self.ds_voltage.size / self.samples_per_buffer
        size_new = int(math.floor(n_buff) * self.samples_per_buffer)
        if size_new < self.ds_voltage.size:
            if self.samplerate_sps != samplerate_sps_default:
                self._logger.debug("skipped alignment due to altered samplerate")
                return
""", """        _, surplus = divmod(self.ds_voltage.size, self.samples_per_buffer)
        size_new = self.ds_voltage.size - surplus
        if surplus > 0:
            if self.samplerate_sps != samplerate_sps_default:
                self._logger.debug("skipped alignment due to altered samplerate")
                return
""")], ["C06"]),
("unique_path_for", wr, [("""    counter = 0
    while True:
        path = Path(base_path).with_suffix(f".{counter}{suffix}")
        if not path.exists():
            return path
        counter += 1
""", """    base = Path(base_path)
    for counter in itertools.count():
        path = base.with_suffix("." + str(counter) + suffix)
        if path.exists():
            continue
        return path
"""), ("import logging\n", "import itertools\nimport logging\n")], ["C11"]),
]
