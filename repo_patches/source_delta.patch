From a37fede385065dc1f7b4705f14097789b12a0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 01/43] fix: derive sampling interval from the number of
 intervals, not samples

The duration between first and last timestamp spans sample_count - 1 intervals.
Dividing by sample_count made the interval of every existing recording too short
(e.g. 9999 ns for 10k samples), which skewed energy sums and the timestamps of
data appended to an existing file.
---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..19e04eb 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,7 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 1dfd81fc639ab7ce7215fad0aecce59524670e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 02/43] fix: time check covers borders between processing
 blocks and short files

_data_timediffs() compared buffers only within one block of max_elements, so a
time-jump at the border of two blocks stayed unnoticed. check_timediffs() raised
an IndexError for files with less than two buffers.
---
 shepherd_core/shepherd_core/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 19e04eb..5884422 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -539,8 +539,9 @@ class Reader:
         )
 
         def calc_timediffs(idx_start: int) -> list:
+            # includes the first buffer of the next iteration -> no gap between them
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + self.max_elements + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
@@ -565,6 +566,8 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
+        if len(diffs) < 1:
+            return True  # too short for time-jumps
         return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
-- 
2.43.0


From cbb165c19aacfb274e35907445621efd3c7b040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 03/43] fix: store_config writes where get_config reads

---
 shepherd_core/shepherd_core/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..3336699 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -371,7 +371,7 @@ class Writer(Reader):
         TODO: use data-model?
         :param data: from virtual harvester or converter / source.
         """
-        self.h5file.attrs["config"] = yaml.safe_dump(
+        self.h5file["data"].attrs["config"] = yaml.safe_dump(
             data, default_flow_style=False, sort_keys=False
         )
 
-- 
2.43.0


From 3ea1b5f4d736bd3592ea6bc8337e9d55847c01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 04/43] fix: gpio-waveforms cope with unknown pins and empty
 traces

---
 shepherd_core/shepherd_core/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 5884422..17cf23e 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -674,6 +674,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if data.size < 1:
+            return np.zeros(data.shape, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
@@ -692,6 +694,9 @@ class Reader:
             pin_dict = {name: self.get_gpio_pin_num(name)}
 
         for pin_name, pin_num in pin_dict.items():
+            if pin_num is None:
+                self._logger.warning("GPIO '%s' was not found - will skip", pin_name)
+                continue
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
             gpio_f = self.get_filter_for_redundant_states(gpio_ps)
             waveforms[pin_name] = np.column_stack((gpio_ts[gpio_f], gpio_ps[gpio_f]))
-- 
2.43.0


From 59b7c569762a03f1dffc6134ca7dd90f20a1a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 05/43] fix: uart decoder handles bytes above 0x7F and NUL

---
 .../shepherd_core/decoder_waveform/uart.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..67b15cc 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -216,15 +216,18 @@ class Uart:
         for time, value, steps in self.events_sig:
             if steps > self.frame_length:
                 if value:
-                    # long pause on High -> reset frame
+                    # long pause on High -> remaining bits of frame are HIGH, reset frame
                     if pos_df is not None:
-                        content.append([t_start, chr(symbol)])
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
+                        content.append((t_start, chr(symbol)))
                         t_start = None
                         symbol = 0
                     pos_df = None
-                else:
+                    continue
+                if round(steps) > self.frame_length + 1:
+                    # more than start-bit and data-bits
                     logger.debug("Error - Long pause - but SigLow (@%d)", time)
-                continue
+                    continue
             if pos_df is None and value == 0:
                 # Start of frame (first low after pause / EOF)
                 pos_df = 0
@@ -232,7 +235,7 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
+                    chunk = min(steps, self.frame_length - pos_df)
                     lshift = min(pos_df, self.frame_length - 1)
                     symbol += (2 ** round(chunk) - 1) << lshift
                 pos_df += round(steps)
@@ -246,10 +249,8 @@ class Uart:
                     pos_df = None
                     if off_tick and value == 0:
                         logger.debug("Error - Off-sized step - but SigLow (@%d)", time)
-        self.events_symbols = np.concatenate(content).reshape((len(content), 2))
-        # TODO: numpy is converting timestamp to string -> must be added as tuple (ts, symbol)
-        # symbol_events[:, 0] = symbol_events[:, 0].astype(float)  # noqa: ERA001
-        # ⤷ does not work
+        # object-dtype keeps timestamps as numbers and does not strip NUL-symbols
+        self.events_symbols = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_symbols
 
     def get_lines(self, *, force_redo: bool = False) -> np.ndarray:
-- 
2.43.0


From 33bfe9f97719cca93d017d266118fc4df26ce004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 06/43] fix: uart line splitting keeps symbols after lone CR
 and last line

---
 .../shepherd_core/decoder_waveform/uart.py    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 67b15cc..178d481 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -267,22 +267,26 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
+                # lone \r ended the line before
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
+            semi_stop = False
 
             if t_start is None:
                 t_start = time
             line += symbol
-        self.events_lines = np.concatenate(content).reshape((len(content), 2))
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+            elif symbol == "\r":
+                semi_stop = True
+        if len(line) > 0:
+            # last line without termination
+            content.append((t_start, line))
+        self.events_lines = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_lines
 
     def get_text(self, *, force_redo: bool = False) -> str:
-- 
2.43.0


From 98d89150d63e8a96e21930a967811b5d627a28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 07/43] fix: efficiency LUT conversion copes with tiny output
 efficiencies

---
 .../shepherd_core/data_models/content/virtual_source.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_source.py b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
index 2cc900e..7b41d6e 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_source.py
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
@@ -346,7 +346,7 @@ class ConverterPRUConfig(ShpModel):
                 [min(255, round(256 * ival)) for ival in il] for il in data.LUT_input_efficiency
             ],
             LUT_out_inv_efficiency_n4=[
-                min((2**14), round((2**4) / value)) if (value > 0) else (2**14)
+                round(min(2**14, (2**4) / value)) if (value > 0) else (2**14)
                 for value in data.LUT_output_efficiency
             ],
         )
-- 
2.43.0


From 26c09cf95c55e0e025e3e28d3ebfad3ace126d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 08/43] fix: no energy flows from a source below the storage
 voltage

---
 shepherd_core/shepherd_core/vsource/virtual_converter_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
index 8d0c1f5..529c6fa 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
@@ -139,8 +139,9 @@ class VirtualConverterModel:
             # IF input==ivcurve request new CV
             if self.feedback_to_hrv:
                 self.V_input_request_uV = self.V_mid_uV + V_res_drop_uV + self._cfg.V_input_drop_uV
-            elif input_voltage_uV < self.V_mid_uV:
+            elif self.V_input_uV < self.V_mid_uV:
                 # without feedback there is no usable energy here
+                # NOTE: check original input, as V_res_drop pulls the local copy up to V_mid
                 input_voltage_uV = 0
         else:
             # direct connection
-- 
2.43.0


From 6671a8905dd53f138ba3e7e784881b8a26a4d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 09/43] fix: linear extrapolation of the harvester never turns
 negative

---
 .../shepherd_core/vsource/virtual_harvester_model.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 41cf950..070e85c 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -129,8 +129,9 @@ class VirtualHarvesterModel:
         elif self.lin_extrapolation:
             # apply the proper delta if needed
             if (self.voltage_hold < self.voltage_set_uV) == (self.voltage_delta > 0):
-                self.voltage_hold += self.voltage_delta
-                self.current_hold += self.current_delta
+                # deltas can be negative -> model unsigned int
+                self.voltage_hold = max(0, self.voltage_hold + self.voltage_delta)
+                self.current_hold = max(0, self.current_hold + self.current_delta)
             else:
                 if self.voltage_hold > self.voltage_delta:
                     self.voltage_hold -= self.voltage_delta
-- 
2.43.0


From 28cf2a2b06e845ef7dccf01c746a607aa8d400e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 10/43] fix: voltage step of recordings is reported in volts,
 also for falling curves

---
 shepherd_core/shepherd_core/reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 17cf23e..bb80ac5 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -287,16 +287,15 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
+            # raw values are unsigned (falling curves!) and not in SI-units
+            dsv = self._cal.voltage.raw_to_si(self.ds_voltage[0:2000])
+            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
             diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
             # static voltages have 0 steps, so
             if len(diffs_ls) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(min(diffs_ls))
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From dd22a0822892e935d0d1736d6f1149dbc2fa23e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/43] fix: constant power target copes with switched off
 supply

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..30fad86 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0  # supply is switched off
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 5878f56e16143f20025cfa8debea1a156949e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 12/43] fix: circular inheritance of fixtures raises ValueError
 instead of recursing endlessly

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..bdd638c 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -107,6 +107,10 @@ class Fixture:
                         msg,
                     )
                 chain.append(base_name)
+            # first entry of the chain may be the new model itself
+            if str(fixture_name).lower() in [str(_n).lower() for _n in chain[1:]]:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             fixture_base = copy.copy(self[fixture_name])
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
             fixture_base["name"] = fixture_name
-- 
2.43.0


From 633272d2e929c26d820695e94c81b94d784c5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 13/43] fix: harvester-fixtures cv33 and cv10 shared the same
 ID

---
 .../data_models/content/virtual_harvester_fixture.yaml          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
index 9fc270a..0ee7603 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
@@ -88,7 +88,7 @@
 
 - datatype: VirtualHarvesterConfig
   parameters:
-    id: 2102
+    id: 2103
     name: cv10
     inherit_from: cv20
     voltage_mV: 1000
-- 
2.43.0


From 58471ec1480641218adb6d3d0b294e998a7f6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 14/43] fix: observers without cape do not break the lookup of
 targets in a testbed

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..3328226 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,7 +93,8 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
+            has_cape = _observer.cape is not None and _observer.cape.active
+            if not _observer.active or not has_cape:
                 # skip decommissioned setups
                 continue
             if _observer.has_target(target_id):
-- 
2.43.0


From 81e2d69463f700a1587ee10c80f06211d6603c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 15/43] fix: testbed detects capes & targets that are used
 twice by their ID

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 3328226..aa57f2a 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,11 +67,11 @@ class Testbed(ShpModel):
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From a6b617ba4411c8b4388047a562593192eae37344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 16/43] fix: experiments compare the node-IDs that are actually
 patched into the firmware

---
 .../shepherd_core/data_models/experiment/experiment.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..b5e016f 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -73,14 +73,16 @@ class Experiment(ShpModel, title="Config of an Experiment"):
         target_ids = []
         custom_ids = []
         for _config in configs:
+            default_ids = []
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                default_ids.append(Target(id=_id).testbed_id)
                 # ⤷ this can raise exception for non-existing targets
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
             else:
-                custom_ids = custom_ids + _config.target_IDs
+                custom_ids = custom_ids + default_ids
+                # ⤷ the ID that gets patched into the firmware
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From ef96ad5b62e9bb5514eb184187bb19505e5c8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 17/43] fix: programming-task accepts the full voltage-range of
 the MCU (5 V)

---
 shepherd_core/shepherd_core/data_models/task/programming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index e54470e..98395c6 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -30,7 +30,7 @@ class ProgrammingTask(ShpModel):
     mcu_port: MCUPort = 1
     mcu_type: SafeStr
     # ⤷ must be either "nrf52" or "msp430" ATM, TODO: clean xp to tasks
-    voltage: Annotated[float, Field(ge=1, lt=5)] = 3
+    voltage: Annotated[float, Field(ge=1, le=5)] = 3
     datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 200_000
     protocol: ProgrammerProtocol
 
-- 
2.43.0


From a78a5e1dd91b6b98614d2e07d10e1e5ab59f9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 18/43] fix: durations keep their fractions of a second when
 stored as yaml

---
 .../shepherd_core/data_models/base/shepherd.py         | 10 ++++++----
 shepherd_core/shepherd_core/writer.py                  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..9762ff8 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -30,9 +30,11 @@ def path2str(
     return dumper.represent_scalar("tag:yaml.org,2002:str", str(data.as_posix()))
 
 
-def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
-    """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+def time2num(dumper: SafeDumper, data: timedelta) -> ScalarNode:
+    """Add a yaml-representation for a specific datatype (in seconds)."""
+    if data.microseconds == 0:
+        return dumper.represent_int(int(data.total_seconds()))
+    return dumper.represent_float(data.total_seconds())
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
@@ -43,7 +45,7 @@ def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
-yaml.add_representer(timedelta, time2int, SafeDumper)
+yaml.add_representer(timedelta, time2num, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 3336699..6da0f40 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -40,15 +40,17 @@ def path2str(
     return dumper.represent_scalar("tag:yaml.org,2002:str", str(data.as_posix()))
 
 
-def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
-    """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+def time2num(dumper: SafeDumper, data: timedelta) -> ScalarNode:
+    """Add a yaml-representation for a specific datatype (in seconds)."""
+    if data.microseconds == 0:
+        return dumper.represent_int(int(data.total_seconds()))
+    return dumper.represent_float(data.total_seconds())
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
-yaml.add_representer(timedelta, time2int, SafeDumper)
+yaml.add_representer(timedelta, time2num, SafeDumper)
 
 
 def unique_path(base_path: Union[str, Path], suffix: str) -> Path:
-- 
2.43.0


From 0fed91ec4381b4cf7c3e4b018b5a58d5d80dfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 19/43] fix: models with IPv6-addresses or URLs can be stored
 as yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 9762ff8..4501f9d 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -47,6 +49,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2num, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From 0bfbca75691dda1e31fafcea0f03458a5680f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 20/43] fix: firmware-paths stay paths when loaded from a file

---
 .../shepherd_core/data_models/content/firmware.py        | 2 +-
 .../shepherd_core/data_models/task/firmware_mod.py       | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..749762b 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -83,7 +83,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
             FirmwareDType.path_elf,
         }:
             try:
-                _ = Path(values.get("data"))
+                values = {**values, "data": Path(values.get("data"))}
             except (SyntaxError, NameError):
                 raise ValueError("Firmware-Path is invalid") from None
         return tb_client.fill_in_user_data(values)
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index 735a28d..13c6620 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -36,6 +36,15 @@ class FirmwareModTask(ShpModel):
     verbose: Annotated[int, Field(ge=0, le=4)] = 2
     # ⤷ 0=Errors, 1=Warnings, 2=Info, 3=Debug
 
+    @model_validator(mode="before")
+    @classmethod
+    def pre_correction(cls, values: dict) -> dict:
+        # paths are text when they come from a file
+        _type, _data = values.get("data_type"), values.get("data")
+        if _type in {FirmwareDType.path_hex, FirmwareDType.path_elf} and isinstance(_data, str):
+            values = {**values, "data": Path(_data)}
+        return values
+
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         if self.data_type in {
-- 
2.43.0


From 5665d7304df8eeb5c2d9fd64d53c887a5706abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 21/43] fix: gpio-events occur exactly count times (float-range
 could add one)

---
 .../shepherd_core/data_models/experiment/observer_features.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..85266e6 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,7 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        return self.delay + np.arange(self.count) * self.period
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From e16bb5ba34b2c0ff26ed8a36d9dfd6cd4fb34c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 22/43] fix: hex-files with reset-vector outside of flash are
 not msp430

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..b5d9143 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -54,7 +54,7 @@ def is_hex_msp430(file: Path) -> bool:
         if 0xFFFE not in ih.addresses():
             return False
         value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From 6744b214270a3e0d48eb3beb68d48761ad7e7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 23/43] fix: hash of non-embedded firmware is compared with its
 file

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 749762b..fc46811 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -144,6 +144,9 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if self.data_hash is None:
             return True
 
+        if (path is None or not path.is_file()) and isinstance(self.data, Path):
+            path = self.data  # firmware is not embedded
+
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
-- 
2.43.0


From c6a61ea404f3061214f4a5a73bce8491c143a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 24/43] fix: downsample - keep sampling-grid uniform across
 internal blocks

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..4262375 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # blocks must be a multiple of the factor to keep the sampling-grid uniform
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From 5d63a56973a01ee6fcab027aba758e4412af5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 25/43] fix: downsample - accept numpy-array as destination

---
 shepherd_data/shepherd_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 4262375..9049a2b 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -210,7 +210,9 @@ class Reader(CoreReader):
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
             data_dst = np.empty((dest_len,))
-        elif isinstance(data_dst, (h5py.Dataset, np.ndarray)):
+        elif isinstance(data_dst, np.ndarray):
+            data_dst.resize((dest_len,), refcheck=False)
+        elif isinstance(data_dst, h5py.Dataset):
             data_dst.resize((dest_len,))
 
         # 8th order butterworth filter for downsampling
-- 
2.43.0


From 1718e9e5df6502ee9b1bfda9897f9961f604ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 26/43] fix: cut - keep samples beyond the last full 100 ms

---
 shepherd_data/shepherd_data/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 9049a2b..8394433 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -262,12 +262,14 @@ class Reader(CoreReader):
         when applicable.
         """
         # prepare cut
+        runtime_s = self.ds_voltage.shape[0] / self.samplerate_sps
+        # ⤷ .runtime_s is rounded to 100 ms and would cost samples at the end
         if not isinstance(start_s, (float, int)):
             start_s = 0
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = runtime_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(runtime_s, end_s)
 
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
@@ -293,7 +295,7 @@ class Reader(CoreReader):
             )
 
         # assemble file-name of output
-        if start_s != 0.0 or end_s != self.runtime_s:
+        if start_s != 0.0 or end_s != runtime_s:
             start_str = f"{start_s:.3f}".replace(".", "s")
             end_str = f"{end_s:.3f}".replace(".", "s")
             cut_str = f".cut_{start_str}_to_{end_str}"
-- 
2.43.0


From c59a6cce1df0fc1004c5bd10bde9a62fd7117c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 27/43] fix: cli validate - report unreadable files with
 exit-status

---
 shepherd_data/shepherd_data/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..0f19213 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -89,6 +89,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
         except TypeError:
+            valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
 
-- 
2.43.0


From 166e87a5b8a09a33315b6a988742515a381b590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 28/43] fix: cli downsample - factor derived from sample-rate
 is specific for each file

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 0f19213..b9759f1 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -331,11 +331,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                file_factor = ds_factor
+                if file_factor is None and sample_rate is not None and sample_rate >= 1:
+                    file_factor = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(file_factor, (float, int)) and file_factor >= 1:
+                    ds_list = [file_factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From 331bb4e0c3abe11de38878e2a50c56d8f8528302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 29/43] fix: cli - one damaged file does not prevent the
 remaining ones from being processed

---
 shepherd_data/shepherd_data/cli.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index b9759f1..cf6fc91 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -88,7 +88,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 valid_dir &= valid_file
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except Exception:
             valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
@@ -158,7 +158,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +203,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +244,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +274,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -343,7 +343,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except Exception:  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -422,7 +422,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From a39f0a4219c6a49f731438a4261a9e16117b9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 30/43] fix: save_csv - datasets without offset-attribute are
 not shifted

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 8394433..ed4d03d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From ab78f3579f78da6b2a7b8fdf1a3fa8f8aef8731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 31/43] fix: save_log - handle groups with sub-groups

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index ed4d03d..a29e0b1 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [key for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From d5961736be1681d1e968eea3cf0bd57c44157948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 32/43] fix: waveform_to_csv - header uses same separator as
 rows

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index bb80ac5..974a689 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -712,7 +712,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From 22e0738d86b74eeae1e7b485aee162f7c6e2ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 33/43] fix: refuse embedded firmware that can not be
 decompressed with a validation error

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index fc46811..7e7b2c5 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -14,6 +14,7 @@ from pydantic import validate_call
 from typing_extensions import Annotated
 from typing_extensions import Self
 from typing_extensions import Unpack
+from zstandard import ZstdError
 
 from ... import fw_tools
 from ...logger import logger
@@ -74,7 +75,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         }:
             try:
                 _hash = fw_tools.base64_to_hash(values.get("data"))
-            except ValueError:
+            except (ValueError, ZstdError):
                 raise ValueError("Embedded Firmware seems to be faulty") from None
             if values.get("data_hash") is not None and _hash != values.get("data_hash"):
                 raise ValueError("Embedded Firmware and Hash do not match!")
-- 
2.43.0


From a3b790d4978016f86f0bdde88d150c322156b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 34/43] fix: refuse calibration measurements with constant
 reference values

---
 .../shepherd_core/data_models/base/cal_measurement.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
index aa74a8c..8200df8 100644
--- a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
+++ b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
@@ -46,7 +46,8 @@ def meas_to_cal(data: CalMeasPairs, component: str) -> CalibrationPair:
     ybar = np.sum(y) / len(y)
     ssreg = np.sum((yhat - ybar) ** 2)
     sstot = np.sum((y - ybar) ** 2)
-    rval = ssreg / sstot
+    # note: constant reference-values do not define a line
+    rval = ssreg / sstot if np.ptp(y) > 0 else 0.0
 
     if rval < 0.999:
         msg = (
-- 
2.43.0


From 3f7ea8cc6fe95db409e8331ec2dc7cbbd877e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:24 +0000
Subject: [PATCH 35/43] fix: plot the last samples of a recording

generate_plot_data() limited the range to the runtime rounded to 100 ms, so the
end of a recording was missing and recordings shorter than 50 ms had no plot.
---
 shepherd_data/shepherd_data/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index a29e0b1..6d34b34 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -477,10 +477,12 @@ class Reader(CoreReader):
             self._logger.warning("Plot-Function was not written for IVCurves.")
         if not isinstance(start_s, (float, int)):
             start_s = 0
+        runtime_s = self.ds_voltage.shape[0] / self.samplerate_sps
+        # ⤷ .runtime_s is rounded to 100 ms and would cost samples at the end
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = runtime_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(runtime_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
         if end_sample - start_sample < 5:
-- 
2.43.0


From 4c4bd794a53bf8e55e37f8dce1ef020f80dff883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 36/43] fix: open-circuit tracker with dark panels and unknown
 open-circuit voltage

OpenCircuitTracker looked up a column that does not exist when 'voc' was
missing and failed for rows without light (no voltage below the ratio).
find_oc() returned 0 V for curves that end before the open-circuit voltage.
---
 shepherd_data/shepherd_data/mppt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..a6150ce 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,10 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr < i_arr[0] * ratio
+    if i_arr[0] > 0 and not np.any(below):
+        return v_arr[-1]  # curve is cut off before the open-circuit voltage
+    return v_arr[np.argmax(below)]
 
 
 class MPPTracker(ABC):
@@ -80,9 +83,10 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            # highest voltage below the ratio, 0 V when the panel is dark
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From ffce8fec2df558acb6006159081a622bb1a5d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 37/43] fix: convert ivonne recordings with few rows in a slice

---
 shepherd_data/shepherd_data/ivonne.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..0e18118 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -40,6 +40,11 @@ def get_isc(coeffs: pd.DataFrame):  # noqa: ANN201
     return coeffs["a"]
 
 
+def get_interpolation(coeffs: pd.DataFrame) -> str:
+    """Cubic interpolation needs at least four supporting points."""
+    return "cubic" if coeffs.shape[0] > 3 else "linear"
+
+
 class Reader:
     """Container for converters that bridge the gap to shepherds data-files."""
 
@@ -147,7 +152,7 @@ class Reader:
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
                     df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
+                    .interpolate(method=get_interpolation(df_slice))
                     .iloc[:-1]
                 )
 
@@ -228,7 +233,9 @@ class Reader:
                 df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method=get_interpolation(df_slice))
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
@@ -279,7 +286,9 @@ class Reader:
                 df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method=get_interpolation(df_slice))
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-- 
2.43.0


From 7f1fc00901280b21e7ba76237ce67e7eec88d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 38/43] fix: metadata export copes with list-attributes and
 impossible dates

---
 shepherd_core/shepherd_core/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 974a689..93898bd 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -615,8 +615,11 @@ class Reader:
         for attr in node.attrs:
             attr_value = node.attrs[attr]
             if isinstance(attr_value, str):
-                with contextlib.suppress(yaml.YAMLError):
+                # NOTE: constructing values can also fail, i.e. for impossible dates
+                with contextlib.suppress(yaml.YAMLError, ValueError):
                     attr_value = yaml.safe_load(attr_value)
+            elif isinstance(attr_value, np.ndarray):
+                attr_value = attr_value.tolist()
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
                 attr_value = int(attr_value)
-- 
2.43.0


From d847e9076cd10e11bad74062b25f3553022f7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 39/43] fix: local timezone considers if daylight saving is in
 force

---
 shepherd_core/shepherd_core/data_models/base/timezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..b3e074a 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -8,9 +8,8 @@ from datetime import timezone
 
 def local_tz() -> timezone:
     """Query the local timezone of the user."""
-    if time.daylight:
-        return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
-    return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
+    now = time.localtime()
+    return timezone(timedelta(seconds=now.tm_gmtoff), now.tm_zone)
 
 
 def local_now() -> datetime:
-- 
2.43.0


From a6d05599e551317d11a9008c0dd63814ba6d183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 40/43] fix: inventory warnings work with several devices,
 missing packages and nested values

---
 shepherd_core/shepherd_core/inventory/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..5fba068 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -78,9 +78,9 @@ class InventoryList(ShpModel):
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
         for _e in self.elements:
             if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
+                warnings["uptime"] = f"[{_e.hostname}] restart is recommended"
             if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
+                warnings["time_delta"] = f"[{_e.hostname}] time-sync has failed"
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
@@ -90,7 +90,8 @@ class InventoryList(ShpModel):
         }
         result = {}
         for _host, _types in _inp.items():
-            for _type, _val in _types.items():
+            for _type, _raw in _types.items():
+                _val = str(_raw)  # some values are not hashable
                 if _type not in result:
                     result[_type] = {}
                 if _val not in result[_type]:
@@ -108,7 +109,7 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
+            if rescnt.get(_key, 0) > 1:
                 warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
 
         # TODO: finish with more potential warnings
-- 
2.43.0


From c3b3bee8ecd8a3bef8d54aacea2690c7657f0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 41/43] fix: use the cache of fixtures only for the default
 fixtures

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index bdd638c..53338c1 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -189,8 +189,10 @@ class Fixtures:
         cache_file = cache_user_path / "fixtures.pickle"
         sheep_detect = Path("/lib/firmware/am335x-pru0-fw").exists()
 
+        # cache is reserved for the default fixtures
         if (
-            not sheep_detect
+            file_path is None
+            and not sheep_detect
             and cache_file.exists()
             and not file_older_than(cache_file, timedelta(hours=24))
             and not reset
@@ -216,7 +218,7 @@ class Fixtures:
 
             if len(self.components) < 1:
                 logger.error(f"No fixture-components found at {self.file_path.as_posix()}")
-            elif sheep_detect:
+            elif file_path is None and sheep_detect:
                 cache_file.parent.mkdir(parents=True, exist_ok=True)
                 with cache_file.open("wb", buffering=-1) as fd:
                     pickle.dump(self.components, fd)
-- 
2.43.0


From 5e9367146ef27fab258c860f6b2522d5513adc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 42/43] fix: web client uses the token it is given

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..b4c2857 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -92,7 +92,7 @@ class WebClient(AbcClient):
             with token.resolve().open() as file:
                 self._token = file.read()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
-- 
2.43.0


From 0bd6628ae7ee4f2dafc4cbfa4c31aefcbddf0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 43/43] fix: refuse targets without id by validation error

---
 shepherd_core/shepherd_core/data_models/testbed/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/target.py b/shepherd_core/shepherd_core/data_models/testbed/target.py
index f64a94b..c242001 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/target.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/target.py
@@ -55,7 +55,7 @@ class Target(ShpModel, title="Target Node (DuT)"):
                 # ⤷ this will raise if default is faulty
             elif isinstance(values.get(_mcu), dict):
                 values[_mcu] = MCU(**values[_mcu])
-        if values.get("testbed_id") is None:
-            values["testbed_id"] = values.get("id") % 2**16
+        if values.get("testbed_id") is None and values.get("id") is not None:
+            values["testbed_id"] = int(values["id"]) % 2**16
 
         return values
-- 
2.43.0

