C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
rd = C + "reader.py"
dr = D + "reader.py"
tc = C + "data_models/experiment/target_config.py"
xp = C + "data_models/experiment/experiment.py"
of = C + "data_models/experiment/observer_features.py"
tb = C + "data_models/testbed/testbed.py"
ob = C + "data_models/testbed/observer.py"
fx = C + "testbed_client/fixtures.py"
em = C + "data_models/task/emulation.py"
fm = C + "data_models/task/firmware_mod.py"
ot = C + "data_models/task/observer_tasks.py"
tt = C + "data_models/task/testbed_tasks.py"
ti = C + "data_models/task/__init__.py"
E = [
("stats_early_return", rd, [("""        if (sample_count > 0) and (duration_raw > 0):
            # this assumes iso-chronous sampling
            duration_s = self._cal.time.raw_to_si(duration_raw)
            self.sample_interval_s = duration_s / (sample_count - 1)
            self.sample_interval_ns = round(10**9 * self.sample_interval_s)
            self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
""", """        if duration_raw > 0:
            steps = sample_count - 1
            duration_s = self._cal.time.raw_to_si(duration_raw)
            self.sample_interval_s = duration_s / steps
            self.sample_interval_ns = round(self.sample_interval_s * 1_000_000_000)
            rate = round(steps / duration_s)
            self.samplerate_sps = rate if rate >= 1 else 1
""")], ["C05", "C06", "C07", "C10", "C33"]),
("read_buffers_while", rd, [("""        for i in range(start_n, end_n):
            idx_start = i * n_samples_per_buffer
            idx_end = idx_start + n_samples_per_buffer
            if _raw:
""", """        i = start_n - 1
        while i + 1 < end_n:
            i += 1
            idx_start = i * n_samples_per_buffer
            idx_end = (i + 1) * n_samples_per_buffer
            if _raw:
""")], ["C07", "C22"]),
("read_buffers_slice_obj", rd, [("""            if _raw:
                yield (
                    self.ds_time[idx_start:idx_end] if _wts else None,
                    self.ds_voltage[idx_start:idx_end],
                    self.ds_current[idx_start:idx_end],
                )
            else:
                yield (
                    self._cal.time.raw_to_si(self.ds_time[idx_start:idx_end]) if _wts else None,
                    self._cal.voltage.raw_to_si(self.ds_voltage[idx_start:idx_end]),
                    self._cal.current.raw_to_si(self.ds_current[idx_start:idx_end]),
                )
""", """            sel = slice(idx_start, idx_end)
            ts = self.ds_time[sel] if _wts else None
            vol, cur = self.ds_voltage[sel], self.ds_current[sel]
            if not _raw:
                if ts is not None:
                    ts = self._cal.time.raw_to_si(ts)
                vol = self._cal.voltage.raw_to_si(vol)
                cur = self._cal.current.raw_to_si(cur)
            yield ts, vol, cur
""")], ["C07", "C22"]),
("vstep_np", rd, [("""            dsv = self._cal.voltage.raw_to_si(self.ds_voltage[0:2000])
            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
            diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
            # static voltages have 0 steps, so
            if len(diffs_ls) == 0:
                return None  # or is 0 better? that may provoke div0
            return float(min(diffs_ls))
""", """            diffs = np.abs(np.diff(self._cal.voltage.raw_to_si(self.ds_voltage[:2000])))
            diffs = diffs[diffs > 0]
            if diffs.size < 1:
                return None
            return float(np.min(diffs))
""")], ["C39"]),
("vstep_loop", rd, [("""            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
            diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
            # static voltages have 0 steps, so
            if len(diffs_ls) == 0:
                return None  # or is 0 better? that may provoke div0
            return float(min(diffs_ls))
""", """            steps = {abs(float(_b) - float(_a)) for _a, _b in zip(dsv[:-1], dsv[1:])}
            steps.discard(0.0)
            return min(steps, default=None)
""")], ["C39"]),
("is_valid_sets", rd, [("""        for dset in ["time", "current", "voltage"]:
            if dset not in self.h5file["data"]:
                self._logger.error(
                    "[FileValidation] dataset '%s' not found in '%s'",
                    dset,
                    self.file_path.name,
                )
                return False
            for attr in ["gain", "offset"]:
                if attr not in self.h5file["data"][dset].attrs:
                    self._logger.error(
                        "[FileValidation] attribute '%s' not found in dataset '%s' in '%s'",
                        attr,
                        dset,
                        self.file_path.name,
                    )
                    return False
""", """        names = ("time", "current", "voltage")
        missing = [n for n in names if n not in self.h5file["data"]]
        if len(missing) > 0:
            self._logger.error("dataset '%s' not found in '%s'", missing, self.file_path.name)
            return False
        if not all(a in self.h5file["data"][n].attrs for n in names for a in ("gain", "offset")):
            self._logger.error("calibration incomplete in '%s'", self.file_path.name)
            return False
""")], ["C08", "C09"]),
("count_err_np", rd, [("""        _items = [1 for _x in _lvl[:] if _x >= min_level]
        return len(_items)
""", """        return int(np.sum(_lvl[:] >= min_level))
""")], ["C09", "C34"]),
("count_err_sum", rd, [("""        if group_name not in self.h5file:
            return 0
        if "level" not in self.h5file[group_name]:
            return 0
        _lvl = self.h5file[group_name]["level"]
        if _lvl.shape[0] < 1:
            return 0
        _items = [1 for _x in _lvl[:] if _x >= min_level]
        return len(_items)
""", """        if group_name in self.h5file and "level" in self.h5file[group_name]:
            levels = self.h5file[group_name]["level"][:]
            return sum(1 for _x in levels if not _x < min_level)
        return 0
""")], ["C09", "C34"]),
("energy_dot", rd, [("""            return (vol_v[:] * cur_a[:]).sum() * self.sample_interval_s

        energy_ws = [_calc_energy(i) for i in job_iter]
        return float(sum(energy_ws))
""", """            return float(np.dot(vol_v, cur_a)) * self.sample_interval_s

        energy_ws = 0.0
        for i in job_iter:
            energy_ws += _calc_energy(i)
        return energy_ws
""")], ["C10"]),
("energy_np_sum", rd, [("""            return (vol_v[:] * cur_a[:]).sum() * self.sample_interval_s
""", """            return np.sum(np.multiply(vol_v, cur_a) * self.sample_interval_s)
""")], ["C10"]),
("stats_cols", rd, [("""            "mean": float(stats_nd[:, 0].mean()),
            "min": float(stats_nd[:, 1].min()),
            "max": float(stats_nd[:, 2].max()),
""", """            "mean": float(np.mean([_s[0] for _s in stats_list])),
            "min": float(min(_s[1] for _s in stats_list)),
            "max": float(max(_s[2] for _s in stats_list)),
""")], ["C10"]),
("timediff_np_diff", rd, [("""            diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
            return list(np.array(diffs_np))
""", """            return list(np.unique(np.diff(ds_time)))
""")], ["C10"]),
("redundant_np", rd, [("""        data_1 = np.concatenate(([not data[0]], data[:-1]))
        return data != data_1
""", """        keep = np.ones(data.shape, dtype=bool)
        keep[1:] = data[1:] != data[:-1]
        return keep
""")], ["C12"]),
("gpio_shift", rd, [("""            gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
""", """            gpio_ps = ((gpio_vs[:] >> pin_num) & 1).astype(bool)
""")], ["C12"]),
("gpio_mask_ne", rd, [("""            gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
            gpio_f = self.get_filter_for_redundant_states(gpio_ps)
            waveforms[pin_name] = np.column_stack((gpio_ts[gpio_f], gpio_ps[gpio_f]))
""", """            mask = 2**pin_num
            gpio_ps = np.bitwise_and(gpio_vs[:], mask) != 0
            gpio_f = self.get_filter_for_redundant_states(gpio_ps)
            times, states = gpio_ts[:][gpio_f], gpio_ps[gpio_f]
            waveforms[pin_name] = np.stack((times, states), axis=1)
""")], ["C12"]),
("wf_csv_join", rd, [("""            csv.write(f"timestamp [s]{separator}{pin_name}\\n")
            for row in pin_wf:
                csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\\n")
""", """            csv.write(separator.join(["timestamp [s]", pin_name]) + "\\n")
            for ts, state in pin_wf:
                csv.write(separator.join((str(ts / 1e9), str(int(state)))) + "\\n")
""")], ["C35"]),
("ds_floordiv", dr, [("""        ds_factor = max(1, math.floor(ds_factor))

        if isinstance(end_n, (int, float)):
            _end_n = min(data_src.shape[0], round(end_n))
        else:
            _end_n = data_src.shape[0]
""", """        ds_factor = max(int(ds_factor), 1)

        _end_n = data_src.shape[0]
        if isinstance(end_n, (int, float)) and round(end_n) < _end_n:
            _end_n = round(end_n)
"""), ("""        oblock_len = round(iblock_len / ds_factor)
""", """        oblock_len = round(iblock_len / ds_factor) if iblock_len % ds_factor else iblock_len // ds_factor
"""), ("        dest_len = math.floor(data_len / ds_factor)", "        dest_len = data_len // ds_factor")], ["C32", "C33"]),
("ds_while", dr, [("""            slice_len = min(dest_len - _iter * oblock_len, oblock_len)
            data_dst[_iter * oblock_len : (_iter + 1) * oblock_len] = slice_ds[:slice_len]
""", """            out_pos = _iter * oblock_len
            slice_len = min(dest_len - out_pos, oblock_len)
            data_dst[out_pos : out_pos + oblock_len] = slice_ds[:slice_len]
""")], ["C32", "C33"]),
("cut_clip", dr, [("""        if not isinstance(start_s, (float, int)):
            start_s = 0
        if not isinstance(end_s, (float, int)):
            end_s = runtime_s
        start_s = max(0, start_s)
        end_s = min(runtime_s, end_s)

        start_sample = round(start_s * self.samplerate_sps)
        end_sample = round(end_s * self.samplerate_sps)

        # test input-parameters
""", """        start_s = max(0, start_s) if isinstance(start_s, (float, int)) else 0
        end_s = min(runtime_s, end_s) if isinstance(end_s, (float, int)) else runtime_s
        start_sample, end_sample = (round(_t * self.samplerate_sps) for _t in (start_s, end_s))

        # test input-parameters
"""), ("""        if ((end_sample - start_sample) / ds_factor) < 1000:
""", """        sample_count = end_sample - start_sample
        if sample_count < 1000 * ds_factor:
""")], ["C33"]),
("csv_zip", dr, [("""            for idx, time_ns in enumerate(h5_group["time"][:]):
                timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
                csv_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f"))
                for key in datasets[1:]:
                    values = h5_group[key][idx]
                    if not raw:
                        values = values * gains[key] + offsets[key]
                    if isinstance(values, np.ndarray):
                        values = separator.join([str(value) for value in values])
                    csv_file.write(f"{separator}{values}")
                csv_file.write("\\n")
        return h5_group["time"][:].shape[0]
""", """            count = 0
            for time_ns in h5_group["time"][:]:
                timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
                columns = [timestamp.strftime("%Y-%m-%d %H:%M:%S.%f")]
                for key in datasets[1:]:
                    values = h5_group[key][count]
                    if not raw:
                        values = values * gains[key] + offsets[key]
                    if isinstance(values, np.ndarray):
                        columns.extend(str(value) for value in values)
                    else:
                        columns.append(str(values))
                csv_file.write(separator.join(columns) + "\\n")
                count += 1
        return count
""")], ["C35"]),
("log_parts", dr, [("""                for key in datasets:
                    try:
                        message = str(h5_group[key][idx])
                    except OSError:
                        message = "[[[ extractor - faulty element ]]]"
                    log_file.write(f"\\t{message}")
                log_file.write("\\n")
        return h5_group["time"].shape[0]
""", """                line = ""
                for key in datasets:
                    try:
                        line += "\\t" + str(h5_group[key][idx])
                    except OSError:
                        line += "\\t[[[ extractor - faulty element ]]]"
                print(line, file=log_file)
        return len(h5_group["time"])
""")], ["C35"]),
("tc_zip", tc, [("""        if self.custom_IDs is not None and target_id in self.target_IDs:
            return self.custom_IDs[self.target_IDs.index(target_id)]
        return None
""", """        if self.custom_IDs is None:
            return None
        for _t, _c in zip(self.target_IDs, self.custom_IDs):
            if _t == target_id:
                return _c
        return None
""")], ["C24", "C25"]),
("tc_dict", tc, [("""        if self.custom_IDs is not None and target_id in self.target_IDs:
            return self.custom_IDs[self.target_IDs.index(target_id)]
        return None
""", """        mapping = dict(zip(self.target_IDs, self.custom_IDs or []))
        return mapping.get(target_id)
""")], ["C24", "C25"]),
("tc_check_helper", tc, [("""                if has_fw and has_mcu and val_fw.mcu.id != tgt_mcu.id:
                    msg = (
                        f"Firmware{mcu_num} for MCU of Target-ID '{target.id}' "
                        f"(={val_fw.mcu.name}) "
                        f"is incompatible (={tgt_mcu.name})"
                    )
                    raise ValueError(msg)
""", """                if not (has_fw and has_mcu):
                    continue
                if val_fw.mcu.id == tgt_mcu.id:
                    continue
                raise ValueError(
                    f"Firmware{mcu_num} for MCU of Target-ID '{target.id}' is incompatible"
                )
""")], ["C24"]),
("xp_counter", xp, [("""        if len(target_ids) > len(set(target_ids)):
            raise ValueError("Target-ID used more than once in Experiment!")
        if len(target_ids) > len(set(custom_ids)):
            raise ValueError("Custom Target-ID are faulty (some form of id-collisions)!")
""", """        from collections import Counter

        if any(_n > 1 for _n in Counter(target_ids).values()):
            raise ValueError("Target-ID used more than once in Experiment!")
        if len(Counter(custom_ids)) < len(target_ids):
            raise ValueError("Custom Target-ID are faulty (some form of id-collisions)!")
""")], ["C24"]),
("xp_sorted", xp, [("""        if len(target_ids) > len(set(target_ids)):
            raise ValueError("Target-ID used more than once in Experiment!")
""", """        ordered = sorted(target_ids)
        if any(_a == _b for _a, _b in zip(ordered, ordered[1:])):
            raise ValueError("Target-ID used more than once in Experiment!")
""")], ["C24"]),
("xp_seen", xp, [("""        target_ids = [_id for _config in configs for _id in _config.target_IDs]
        obs_ids = [testbed.get_observer(_id).id for _id in target_ids]
        if len(target_ids) > len(set(obs_ids)):
            raise ValueError(
                "Observer is used more than once in Experiment -> only 1 target per observer!"
            )
""", """        seen = set()
        for _config in configs:
            for _id in _config.target_IDs:
                obs_id = testbed.get_observer(_id).id
                if obs_id in seen:
                    raise ValueError("Observer is used more than once in Experiment")
                seen.add(obs_id)
""")], ["C24"]),
("xp_next", xp, [("""        for _config in self.target_configs:
            if target_id in _config.target_IDs:
                return _config
        # gets already caught in target_config - but keep:
""", """        found = next((_c for _c in self.target_configs if target_id in _c.target_IDs), None)
        if found is not None:
            return found
        # gets already caught in target_config - but keep:
"""), ("""        return [_id for _config in self.target_configs for _id in _config.target_IDs]
""", """        ids = []
        for _config in self.target_configs:
            ids.extend(_config.target_IDs)
        return ids
""")], ["C24", "C25"]),
("ev_linspace", of, [("""        return self.delay + np.arange(self.count) * self.period
""", """        return np.array([self.delay + i * self.period for i in range(self.count)])
""")], ["C29"]),
("ev_arange_mul", of, [("""        return self.delay + np.arange(self.count) * self.period
""", """        steps = np.arange(0, self.count, 1, dtype=float)
        return np.add(np.multiply(steps, self.period), self.delay)
""")], ["C29"]),
("neg_helper", of, [("""        if self.mask == 0:
            raise ValueError("Error in config -> tracing enabled but mask is 0")
        if self.delay and self.delay.total_seconds() < 0:
            raise ValueError("Delay can't be negative.")
        if self.duration and self.duration.total_seconds() < 0:
            raise ValueError("Duration can't be negative.")
        return self
""", """        if not self.mask:
            raise ValueError("Error in config -> tracing enabled but mask is 0")
        for _name in ("delay", "duration"):
            _val = getattr(self, _name)
            if _val and _val < timedelta(0):
                raise ValueError(f"{_name} can't be negative.")
        return self
""")], ["C27"]),
("neg_days", of, [("""        if self.delay and self.delay.total_seconds() < 0:
            raise ValueError("Delay can't be negative.")
""", """        if self.delay and self.delay.days < 0:
            raise ValueError("Delay can't be negative.")
""")], ["C27"]),
("emu_time_flow", em, [("""        has_time = values.get("time_start") is not None
        if has_time and isinstance(values["time_start"], (int, float)):
            values["time_start"] = datetime.fromtimestamp(values["time_start"], tz=local_tz())
        if has_time and isinstance(values["time_start"], str):
            values["time_start"] = datetime.fromisoformat(values["time_start"])
        if has_time and values["time_start"].tzinfo is None:
            values["time_start"] = values["time_start"].astimezone()
        return values
""", """        start = values.get("time_start")
        if start is None:
            return values
        if isinstance(start, str):
            start = datetime.fromisoformat(start)
        elif isinstance(start, (int, float)):
            start = datetime.fromtimestamp(start, tz=local_tz())
        if start.tzinfo is None:
            start = start.astimezone()
        values["time_start"] = start
        return values
""")], ["C27"]),
("emu_port_var", em, [("""        obs = tb.get_observer(tgt_id)
        tgt_cfg = xp.get_target_config(tgt_id)

        return cls(
            input_path=tgt_cfg.energy_env.data_path,
            output_path=root_path / f"emu_{obs.name}.h5",
""", """        tgt_cfg = xp.get_target_config(tgt_id)
        obs = tb.get_observer(tgt_id)
        out_path = root_path.joinpath("emu_" + str(obs.name) + ".h5")

        return cls(
            input_path=tgt_cfg.energy_env.data_path,
            output_path=out_path,
"""), ("""            io_port=obs.get_target_port(tgt_id),
            pwr_port=obs.get_target_port(tgt_id),
""", """            **dict.fromkeys(("io_port", "pwr_port"), obs.get_target_port(tgt_id)),
""")], ["C25"]),
("fm_lookup", fm, [("""        fw = tgt_cfg.firmware1 if mcu_port == 1 else tgt_cfg.firmware2
        if fw is None:
            # TODO: if target has default fw -> use that! otherwise no sleep is flashed
            return None

        fw_id = tgt_cfg.get_custom_id(tgt_id)
        if fw_id is None:
            obs = tb.get_observer(tgt_id)
            fw_id = obs.get_target(tgt_id).testbed_id
""", """        fw = {1: tgt_cfg.firmware1, 2: tgt_cfg.firmware2}[mcu_port]
        if fw is None:
            return None

        fw_id = tgt_cfg.get_custom_id(tgt_id)
        fw_id = tb.get_observer(tgt_id).get_target(tgt_id).testbed_id if fw_id is None else fw_id
""")], ["C25"]),
("ot_tasks_comp", ot, [("""        tasks = []

        for task_name in task_names:
            if not hasattr(self, task_name):
                continue
            task = getattr(self, task_name)
            if task is None:
                continue
            tasks.append(task)
        return tasks
""", """        tasks = [getattr(self, task_name, None) for task_name in task_names]
        return [task for task in tasks if task is not None]
""")], ["C25", "C31"]),
("tt_next", tt, [("""        for tasks in self.observer_tasks:
            if observer == tasks.observer:
                return tasks
        return None
""", """        matching = {tasks.observer: tasks for tasks in reversed(self.observer_tasks)}
        return matching.get(observer)
"""), ("            values = {**values, **obt.get_output_paths()}", "            values.update(obt.get_output_paths())")], ["C25", "C31"]),
("ti_table", ti, [("""    if shp_wrap.datatype == ObserverTasks.__name__:
        obt = ObserverTasks(**shp_wrap.parameters)
        content = obt.get_tasks()
    elif shp_wrap.datatype == EmulationTask.__name__:
        content = [EmulationTask(**shp_wrap.parameters)]
    elif shp_wrap.datatype == HarvestTask.__name__:
        content = [HarvestTask(**shp_wrap.parameters)]
    elif shp_wrap.datatype == FirmwareModTask.__name__:
        content = [FirmwareModTask(**shp_wrap.parameters)]
    elif shp_wrap.datatype == ProgrammingTask.__name__:
        content = [ProgrammingTask(**shp_wrap.parameters)]
    elif""", """    single = {_t.__name__: _t for _t in (EmulationTask, HarvestTask, FirmwareModTask, ProgrammingTask)}
    if shp_wrap.datatype == ObserverTasks.__name__:
        content = ObserverTasks(**shp_wrap.parameters).get_tasks()
    elif shp_wrap.datatype in single:
        content = [single[shp_wrap.datatype](**shp_wrap.parameters)]
    elif""")], ["C31"]),
("ti_next", ti, [("""        obt = tbt.get_observer_tasks(observer)
        if obt is None:
            raise ValueError("Observer '%s' is not in TestbedTask-Set", observer)
""", """        obt = None
        for _tasks in tbt.observer_tasks:
            if _tasks.observer == observer:
                obt = _tasks
                break
        else:
            raise ValueError("Observer '%s' is not in TestbedTask-Set", observer)
""")], ["C31"]),
("tb_helper", tb, [("""        if len(observers) > len(set(observers)):
            raise ValueError("Observers used more than once in Testbed")
        if len(ips) > len(set(ips)):
            raise ValueError("Observer-IP used more than once in Testbed")
        if len(macs) > len(set(macs)):
            raise ValueError("Observers-MAC-Address used more than once in Testbed")
        if len(capes) > len(set(capes)):
            raise ValueError("Cape used more than once in Testbed")
        if len(targets) > len(set(targets)):
            raise ValueError("Target used more than once in Testbed")
        if len(eth_ports) > len(set(eth_ports)):
            raise ValueError("Observers-Ethernet-Port used more than once in Testbed")
""", """        for _what, _items in {
            "Observers": observers,
            "Observer-IP": ips,
            "Observers-MAC-Address": macs,
            "Cape": capes,
            "Target": targets,
            "Observers-Ethernet-Port": eth_ports,
        }.items():
            if len(set(_items)) != len(_items):
                raise ValueError(f"{_what} used more than once in Testbed")
""")], ["C26"]),
("tb_seen", tb, [("""        if len(targets) > len(set(targets)):
            raise ValueError("Target used more than once in Testbed")
""", """        for _i, _t in enumerate(targets):
            if _t in targets[:_i]:
                raise ValueError("Target used more than once in Testbed")
"""), ("""            if _obs.cape is not None:
                capes.append(_obs.cape.id)
            if _obs.target_a is not None:
                targets.append(_obs.target_a.id)
            if _obs.target_b is not None:
                targets.append(_obs.target_b.id)
            eth_ports.append(_obs.eth_port)
""", """            eth_ports.append(_obs.eth_port)
        capes = [_obs.cape.id for _obs in self.observers if _obs.cape]
        targets = [
            _t.id for _obs in self.observers for _t in (_obs.target_a, _obs.target_b) if _t is not None
        ]
""")], ["C26"]),
("tb_get_obs", tb, [("""            has_cape = _observer.cape is not None and _observer.cape.active
            if not _observer.active or not has_cape:
                # skip decommissioned setups
                continue
            if _observer.has_target(target_id):
                return _observer
""", """            usable = _observer.active and _observer.cape is not None and _observer.cape.active
            if usable and _observer.has_target(target_id):
                return _observer
""")], ["C24", "C25", "C26"]),
("obs_any", ob, [("""        case_a = (
            self.target_a is not None and target_id == self.target_a.id and self.target_a.active
        )
        case_b = (
            self.target_b is not None and target_id == self.target_b.id and self.target_b.active
        )
        return case_a or case_b
""", """        return any(
            _t is not None and _t.id == target_id and _t.active
            for _t in (self.target_a, self.target_b)
        )
"""), ("""        if self.has_target(target_id):
            if self.target_a is not None and target_id == self.target_a.id:
                return TargetPort.A
            if self.target_b is not None and target_id == self.target_b.id:
                return TargetPort.B
""", """        if self.has_target(target_id):
            ports = {TargetPort.A: self.target_a, TargetPort.B: self.target_b}
            for _port, _tgt in ports.items():
                if _tgt is not None and target_id == _tgt.id:
                    return _port
""")], ["C24", "C25", "C26"]),
("fx_update", fx, [("""            for key, value in values.items():
                # keep previous entries
                base_dict[key] = value
            values = base_dict
""", """            base_dict.update(values)
            values = base_dict
"""), ("""            for key, value in values.items():
                # keep previous entries
                fixture_base[key] = value
            if "inherit_from" in fixture_base:
""", """            fixture_base = {**fixture_base, **values}
            if "inherit_from" in fixture_base:
"""), ("""        base = copy.copy(base)
        for key, value in model.items():
            # keep previous entries
            base[key] = value
        return base
""", """        return {**base, **model}
""")], ["C23", "C26"]),
("fx_getitem", fx, [("""            key = key.lower()
            if key in self.elements_by_name:
                return self.elements_by_name[key]
            key = int(key) if key.isdigit() else None
        if key in self.elements_by_id:
            return self.elements_by_id[int(key)]
""", """            by_name = self.elements_by_name.get(key.lower())
            if by_name is not None:
                return by_name
            key = int(key) if key.isdigit() else None
        by_id = self.elements_by_id.get(key)
        if by_id is not None:
            return by_id
""")], ["C23"]),
("fx_cycle_any", fx, [("""            if str(fixture_name).lower() in [str(_n).lower() for _n in chain[1:]]:
""", """            known = {str(_n).lower() for _n in chain[1:]}
            if str(fixture_name).lower() in known:
""")], ["C23"]),
]
