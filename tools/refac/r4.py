C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
rd = D + "reader.py"
crd = C + "reader.py"
iv = D + "ivonne.py"
mp = D + "mppt.py"
inv = C + "inventory/__init__.py"
fx = C + "testbed_client/fixtures.py"
tz = C + "data_models/base/timezone.py"
co = C + "data_models/base/content.py"
wc = C + "testbed_client/client_web.py"
gp = C + "data_models/testbed/gpio.py"
tg = C + "data_models/testbed/target.py"
E = [
("plot_window_helper", rd, [("""        if not isinstance(start_s, (float, int)):
            start_s = 0
        runtime_s = self.ds_voltage.shape[0] / self.samplerate_sps
        # ⤷ .runtime_s is rounded to 100 ms and would cost samples at the end
        if not isinstance(end_s, (float, int)):
            end_s = runtime_s
        start_s = max(0, start_s)
        end_s = min(runtime_s, end_s)
        start_sample = round(start_s * self.samplerate_sps)
        end_sample = round(end_s * self.samplerate_sps)
        if end_sample""", """        start_s, end_s = self._plot_window(start_s, end_s)
        start_sample, end_sample = (round(x * self.samplerate_sps) for x in (start_s, end_s))
        if end_sample"""), ("    @staticmethod\n    def assemble_plot(", """    def _plot_window(self, start_s, end_s):
        n_samples = len(self.ds_voltage)
        runtime_s = n_samples / self.samplerate_sps
        start_s = start_s if isinstance(start_s, (float, int)) else 0
        end_s = end_s if isinstance(end_s, (float, int)) else runtime_s
        return max(start_s, 0), min(end_s, runtime_s)

    @staticmethod
    def assemble_plot(""")], ["C40"]),
("plot_time_inline", rd, [("""        if relative_timestamp:
            data["time"] = data["time"] - self._cal.time.raw_to_si(self.ds_time[0])
        return data
""", """        if not relative_timestamp:
            return data
        t_start = self._cal.time.raw_to_si(self.ds_time[0])
        data.update(time=data["time"] - t_start)
        return data
""")], ["C40"]),
("plot_series_power", rd, [("""        for date in data:
            if not only_pwr:
                axs[0].plot(date["time"], date["voltage"], label=date["name"])
                axs[1].plot(date["time"], date["current"] * 10**3, label=date["name"])
            axs[-1].plot(
                date["time"], date["voltage"] * date["current"] * 10**3, label=date["name"]
            )
""", """        for date in data:
            time, name = date["time"], date["name"]
            current_mA = 1000 * date["current"]
            power_mW = current_mA * date["voltage"]
            if only_pwr:
                axs[0].plot(time, power_mW, label=name)
                continue
            for ax, values in zip(axs, (date["voltage"], current_mA, power_mW)):
                ax.plot(time, values, label=name)
""")], ["C40"]),
("plot_path_helper", rd, [("""        start_str = f"{data['start_s']:.3f}".replace(".", "s")
        end_str = f"{data['end_s']:.3f}".replace(".", "s")
        plot_path = self.file_path.resolve().with_suffix(f".plot_{start_str}_to_{end_str}.png")
""", """        times = [format(data[k], ".3f").replace(".", "s") for k in ("start_s", "end_s")]
        plot_path = self.file_path.resolve()
        plot_path = plot_path.with_suffix(".plot_" + "_to_".join(times) + ".png")
""")], ["C40"]),
("iv_model_clip", mp, [("""    if isinstance(currents, np.ndarray):
        currents[currents < 0.0] = 0.0
    else:
        currents = max(0.0, currents)

    return currents
""", """    if isinstance(currents, np.ndarray):
        return np.where(currents < 0.0, 0.0, currents)
    return currents if currents > 0.0 else 0.0
""")], ["C41", "C42"]),
("iv_optimal_direct", mp, [("""        coeffs["max_pos"] = coeffs.apply(lambda x: np.argmax(x["pcurve"]), axis=1)
""", """        coeffs["max_pos"] = coeffs.apply(lambda x: x["pcurve"].argmax(), axis=1)
""")], ["C41", "C42"]),
("find_oc_nonzero", mp, [("""    if i_arr[0] > 0 and not np.any(below):
        return v_arr[-1]  # curve is cut off before the open-circuit voltage
    return v_arr[np.argmax(below)]
""", """    if i_arr[0] > 0 and not below.any():
        return v_arr[-1]  # curve is cut off before the open-circuit voltage
    position = np.argmax(below)
    return v_arr[position]
""")], ["C41"]),
("ivonne_limit_helper", iv, [("""        if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
            self._logger.info("  -> gets trimmed to %f s", duration_s)
            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
        else:
            df_elements_n = self._df.shape[0]
""", """        df_elements_n = self._elements(duration_s)
"""), ("    def convert_2_ivcurves(", """    def _elements(self, duration_s):
        total = len(self._df)
        if duration_s is None or not isinstance(duration_s, (float, int)):
            return total
        if self.runtime_s <= duration_s:
            return total
        return min(total, int(duration_s * self.samplerate_sps))

    def convert_2_ivcurves(""")], ["C42"]),
("ivonne_clip", iv, [("""                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
""", """                df_slice["voc"] = df_slice["voc"].clip(upper=v_max)
""")], ["C42"]),
("meta_attr_helper", crd, [("""        for attr in node.attrs:
            attr_value = node.attrs[attr]
            if isinstance(attr_value, str):
                # NOTE: constructing values can also fail, i.e. for impossible dates
                with contextlib.suppress(yaml.YAMLError, ValueError):
                    attr_value = yaml.safe_load(attr_value)
            elif isinstance(attr_value, np.ndarray):
                attr_value = attr_value.tolist()
            elif "int" in str(type(attr_value)):
                # TODO: why not isinstance? can it be List[int] other complex type?
                attr_value = int(attr_value)
            else:
                attr_value = float(attr_value)
            metadata[attr] = attr_value
""", """        for attr, attr_value in node.attrs.items():
            metadata[attr] = self._attr_to_python(attr_value)
"""), ("    def save_metadata(", """    @staticmethod
    def _attr_to_python(value):
        if isinstance(value, str):
            try:
                return yaml.safe_load(value)
            except (yaml.YAMLError, ValueError):
                return value
        if isinstance(value, np.ndarray):
            return value.tolist()
        if "int" in str(type(value)):
            return int(value)
        return float(value)

    def save_metadata(""")], ["C43"]),
("meta_recursion", crd, [("""            for item in node:
                metadata[item] = self.get_metadata(node[item], minimal=minimal)

        return metadata
""", """            metadata.update(
                {name: self.get_metadata(child, minimal=minimal) for name, child in node.items()}
            )
        return metadata
""")], ["C43"]),
("content_rules", co, [("if is_visible and self.description is None:", "if self.description is None and is_visible:")], ["C44"]),
("store_lookup_get", fx, [("""        key = key.lower()
        if key in self.components:
            return self.components[key]
        msg = f"Component""", """        component = self.components.get(key.lower())
        if component is not None:
            return component
        msg = f"Component""")], ["C45", "C23"]),
("store_setdefault", fx, [("""        if self.components.get(fix_type) is None:
            self.components[fix_type] = Fixture(model_type=fix_type)
        self.components[fix_type].insert(data)
""", """        if fix_type not in self.components:
            self.components[fix_type] = Fixture(fix_type)
        component = self.components[fix_type]
        component.insert(data)
""")], ["C45", "C23"]),
("store_cache_helper", fx, [("""        if (
            file_path is None
            and not sheep_detect
            and cache_file.exists()
            and not file_older_than(cache_file, timedelta(hours=24))
            and not reset
        ):
""", """        cacheable = file_path is None
        fresh = cache_file.is_file() and not file_older_than(cache_file, timedelta(days=1))
        if cacheable and fresh and not (sheep_detect or reset):
""")], ["C45", "C47"]),
("store_read_text", fx, [("""        with file.open() as fd:
            fixtures = yaml.safe_load(fd)
            for fixture in fixtures:
                if not isinstance(fixture, dict):
                    continue
                fix_wrap = Wrapper(**fixture)
                self.insert_model(fix_wrap)
""", """        fixtures = yaml.safe_load(file.read_text())
        for fixture in filter(lambda x: isinstance(x, dict), fixtures):
            self.insert_model(Wrapper(**fixture))
""")], ["C45"]),
("file_age", fx, [("""    cutoff = local_now() - delta
    mtime = datetime.fromtimestamp(file.stat().st_mtime, tz=local_tz())
    return mtime < cutoff
""", """    mtime = datetime.fromtimestamp(file.stat().st_mtime, tz=local_tz())
    age = local_now() - mtime
    return age > delta
""")], ["C47", "C45"]),
("inv_first", inv, [("ts_earl = min([_e.created.timestamp() for _e in self.elements])", "first = min(_e.created for _e in self.elements)"),
                    ("(_e.created.timestamp() - ts_earl) > 10", "_e.created - first > timedelta(seconds=10)")], ["C46"]),
("inv_setdefault", inv, [("""                if _type not in result:
                    result[_type] = {}
                if _val not in result[_type]:
                    result[_type][_val] = []
                result[_type][_val].append(_host)
""", """                result.setdefault(_type, {}).setdefault(_val, []).append(_host)
""")], ["C46"]),
("inv_hours", inv, [("_e.uptime > timedelta(hours=30).total_seconds()", "_e.uptime > 30 * 60 * 60")], ["C46"]),
("tz_astimezone", tz, [("""    return datetime.now(tz=local_tz())
""", """    zone = local_tz()
    return datetime.now(zone)
"""), ("""    return local_now().date().isoformat()
""", """    today = local_now().date()
    return today.isoformat()
""")], ["C47"]),
("tz_offset_var", tz, [("""    now = time.localtime()
    return timezone(timedelta(seconds=now.tm_gmtoff), now.tm_zone)
""", """    local = time.localtime(time.time())
    offset = timedelta(minutes=local.tm_gmtoff // 60)
    return timezone(offset, local.tm_zone)
""")], ["C47"]),
("web_url_f", wc, [("""self._server + "/user?token=" + self._token""", """f"{self._server}/user?token={self._token}\""""), ("""self._server + "/session_key\"""", """f"{self._server}/session_key\"""")], ["C48"]),
("web_user_loop", wc, [("""        if values.get("owner") is None:
            values["owner"] = self._user.name
        if values.get("group") is None:
            values["group"] = self._user.group
        return values
""", """        defaults = {"owner": self._user.name, "group": self._user.group}
        for key, value in defaults.items():
            if values.get(key) is None:
                values[key] = value
        return values
""")], ["C48"]),
("web_token_read", wc, [("""            with token.resolve().open() as file:
                self._token = file.read()
""", """            self._token = token.read_text()
""")], ["C48"]),
("gpio_all", gp, [("""        no_pru = (self.reg_pru is None) or (self.pin_pru is None)
        no_sys = (self.reg_sys is None) or (self.pin_sys is None)
        if no_pru and no_sys:
""", """        use_pru = all(x is not None for x in (self.reg_pru, self.pin_pru))
        use_sys = all(x is not None for x in (self.reg_sys, self.pin_sys))
        if not (use_pru or use_sys):
"""), ("""        return ("gpio" in self.name.lower()) and (self.direction in {"IO", "OUT"})
""", """        if self.direction == "IN":
            return False
        return self.name.lower().find("gpio") >= 0
""")], ["C49", "C27"]),
("target_mcu_helper", tg, [("""        for _mcu in ["mcu1", "mcu2"]:
            if isinstance(values.get(_mcu), str):
                values[_mcu] = MCU(name=values[_mcu])
                # ⤷ this will raise if default is faulty
            elif isinstance(values.get(_mcu), dict):
                values[_mcu] = MCU(**values[_mcu])
""", """        for key in ("mcu1", "mcu2"):
            value = values.get(key)
            if isinstance(value, str):
                value = {"name": value}
            if isinstance(value, dict):
                values[key] = MCU(**value)
""")], ["C49", "C24", "C26"]),
]
