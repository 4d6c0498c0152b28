#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a table so the file stays consistent)."""
import json, pathlib

C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
P = []


def p(id_, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


# ---------------------------------------------------------------- calibration
p("C01", "Calibration converts raw <-> SI faithfully",
  "For every calibration pair (gain > 0, offset) SI = raw * gain + offset, converting a raw register value to SI and back returns exactly that raw value, and converting an SI value to raw yields the nearest register value, clamped to be never negative. allow_negative=False clamps the SI result at zero and otherwise changes nothing; scalars and arrays convert identically, element by element.",
  ["inputs"], "every gain > 0 and offset of a calibration pair, every raw value 0 .. 2^32-1, every SI value",
  "The tests convert a handful of constants with the default calibration; the claim is about all 2^32 register values for every gain/offset a cape can have.",
  [C + "data_models/base/calibration.py"],
  [("CalibrationPair.raw_to_si / si_to_raw", C + "data_models/base/calibration.py")],
  ["CalibrationPair.raw_to_si()", "CalibrationPair.si_to_raw()"])
p("C02", "Cape calibration survives the EEPROM byte format",
  "Serialising a cape calibration to EEPROM bytes and reading it back gives the same gain and offset for every harvester and emulator channel (no channel swapped, dropped or altered), as 16 big-endian IEEE doubles in a fixed channel order (harvester first). Bytes of a wrong length or with non-positive gains are rejected instead of producing a calibration.",
  ["inputs"], "every combination of gain and offset of all eight channels; byte strings of any length 0..136",
  "A test round-trips the default calibration, in which several channels are identical, so a swapped or dropped channel is invisible.",
  [C + "data_models/base/calibration.py"],
  [("CalibrationCape.to_bytestr / from_bytestr, dict_generator", C + "data_models/base/calibration.py")],
  ["CalibrationCape.to_bytestr()", "CalibrationCape.from_bytestr()"])
p("C03", "sysfs export of calibration is scaled right and fits or raises",
  "The values exported for the PRU are, per key, the documented fixed-point scaling of the right channel (ADC current in nA with 8 bit shift, ADC voltage in uV with 8 bit shift, DAC voltage in uV with 20 bit shift; offsets unshifted), rounded to the nearest integer. An export either contains only gains in [0, 2^32) and offsets in [-2^31, 2^31) or raises ValueError - it never hands out a value that does not fit its register.",
  ["inputs"], "every calibration (gain > 0, any offset) for harvester and emulator",
  "Tests export only the default calibration, nowhere near the 32-bit limits.",
  [C + "data_models/base/calibration.py"],
  [("CalibrationHarvester/CalibrationEmulator.export_for_sysfs", C + "data_models/base/calibration.py")],
  ["export_for_sysfs()"])
p("C04", "Hardware conversion formulas stay in range and invert each other",
  "Every ADC/DAC code produced in limited mode lies within 0 .. 2^bits-1 (18 bit ADC, 16 bit DAC), grows monotonically with the physical value, and decodes to a value at most one LSB below the encoded one (values outside the range saturate). A recording calibration derived from a harvester or emulator calibration uses that device's voltage and current channel of the requested target port, and pairs probed from a linear function reproduce that function.",
  ["inputs"], "all physical values and codes; all calibrations; both target ports",
  "Tests sample a few voltages; saturation, monotonicity and the one-LSB bound are universally quantified.",
  [C + "calibration_hw_def.py", C + "data_models/base/calibration.py"],
  [("adc_*/dac_* functions", C + "calibration_hw_def.py"), ("CalibrationSeries.from_cal, CalibrationPair.from_fn", C + "data_models/base/calibration.py")],
  ["adc_current_to_raw() ... dac_raw_to_voltage()", "CalibrationSeries.from_cal()", "CalibrationPair.from_fn()"])
# ---------------------------------------------------------------- HDF5
p("C05", "Appending keeps the three datasets in lock-step and loses nothing",
  "After any sequence of appends the time, voltage and current datasets have equal length: the old length plus the length of the shortest array given; earlier samples stay untouched and the new samples appear unchanged at the end, in order. When only a start timestamp is given, the n-th new sample is stamped start + n * sampling interval; an unusable timestamp is rejected before anything is written.",
  ["inputs", "histories"], "every stored length and content, every combination of input lengths and values, chains of appends",
  "Tests append a few equal-length arrays; the property quantifies over all mismatched lengths, contents and histories.",
  [C + "writer.py"],
  [("Writer.append_iv_data_raw / append_iv_data_si", C + "writer.py")],
  ["h5file['data']['time'|'voltage'|'current']"])
p("C06", "Closing a recording only trims the incomplete last buffer",
  "When a writer closes, all three datasets are cut to the same largest multiple of the buffer size that does not exceed the recorded length, i.e. fewer than one buffer of trailing samples is dropped and nothing before it changes. Data of a different (e.g. down-sampled) sample rate is not trimmed at all.",
  ["inputs", "histories"], "every recorded length and content, every sample rate and time base",
  "Tests close files with a few lengths; off-by-one or float rounding in the floor would show up only for particular lengths.",
  [C + "writer.py", C + "reader.py"],
  [("Writer.__exit__ / _align", C + "writer.py"), ("Reader._refresh_file_stats", C + "reader.py")],
  ["dataset shapes after the writer's context ends"])
p("C07", "Buffered reading visits each sample of the range exactly once, in order",
  "Reading buffers start..end yields exactly the complete buffers of that range, in order: the k-th entry of the i-th buffer is sample i*size+k of time, voltage and current, with all three arrays of the requested buffer size. Converted reads equal the raw reads passed through the file's own calibration of that channel; omitting timestamps changes nothing else.",
  ["inputs", "configurations"], "every file length and content, start/end, buffer size, and raw/SI/omit combination",
  "Tests iterate over whole default files; partial ranges, odd buffer sizes and end beyond the file are hardly sampled.",
  [C + "reader.py"], [("Reader.read_buffers", C + "reader.py")], ["Reader.read_buffers()"])
p("C08", "What is written to a recording is what is read back",
  "A recording written with a mode, datatype, window size, calibration, hostname and config is read back with exactly those values, and SI samples written come back within half a quantisation step per channel when inside the register range. Defaults fill only what was not given; modifying an existing file keeps all metadata that is not explicitly replaced; unsupported mode/datatype combinations, and ivcurve without a window size, are refused.",
  ["inputs", "configurations", "histories"], "all metadata combinations, calibrations and SI values in range; create and modify-existing histories",
  "Tests check single attributes for few settings and never read a stored config back.",
  [C + "writer.py", C + "reader.py"],
  [("Writer.__init__, store_config, store_hostname", C + "writer.py"), ("Reader.get_*", C + "reader.py")],
  ["Reader.get_mode/get_datatype/get_window_samples/get_calibration_data/get_hostname/get_config/read_buffers"])
p("C09", "File validation accepts exactly the structurally sound recordings",
  "A file counts as valid exactly when it has a known mode, a window_samples and datatype attribute, the time/current/voltage datasets each with gain and offset, a datatype allowed for the mode, and - for ivcurves - a window of at least one sample. Soft flaws (unequal lengths, misaligned size, compression, missing hostname, logged errors) never invalidate a file, and the logged error count equals the number of log entries at or above the given level.",
  ["inputs", "configurations"], "every subset of missing attributes/datasets, every mode/datatype/window combination, every log-level list",
  "Tests validate a few complete files; the combinations of missing parts are not enumerated.",
  [C + "reader.py"], [("Reader.is_valid, count_errors_in_log", C + "reader.py")],
  ["Reader.is_valid()", "Reader.count_errors_in_log()"])
p("C10", "Energy, statistics and time checks do not depend on internal chunking",
  "Total energy is the sum over all samples of voltage times current times the sample interval, and reported minimum/maximum are those of the whole dataset, no matter how the file is split for processing. The time check accepts a recording exactly when all consecutive buffers are equally spaced at the nominal buffer interval: it reports a jump anywhere in the file and does not fail for files too short to contain a jump.",
  ["inputs"], "every dataset length and content and every processing block size, position of a time jump",
  "Test files fit into one processing block of 40 s, so block borders are never crossed.",
  [C + "reader.py"], [("Reader.energy, _dset_statistics, _data_timediffs, check_timediffs", C + "reader.py")],
  ["Reader.energy()", "Reader.get_metadata()", "Reader.check_timediffs()"])
p("C11", "A writer never destroys an existing recording unasked",
  "Creating a writer on an occupied path without asking to overwrite or modify stores to a fresh path that did not exist before, leaving every existing file as it was; with overwrite it replaces that file only, and with modify it opens it without truncating. A directory at the path is refused.",
  ["inputs", "histories"], "every pattern of already existing files and every flag combination",
  "Tests try a single conflict; the search for a free name must work for any set of occupied names.",
  [C + "writer.py"], [("unique_path, Writer.__init__", C + "writer.py")], ["files on disk before/after Writer()"])
p("C12", "GPIO traces are turned into waveforms without losing transitions",
  "For every pin the waveform starts with the pin's initial state at the first timestamp and then lists exactly the samples where that pin's level changes, with unaltered timestamps and the right level; other pins never influence it. Pin lookup by name returns a pin whose description carries that name, and nothing for unknown names.",
  ["inputs"], "every sequence of gpio register values and timestamps, every pin",
  "One recorded trace is tested; a wrong bit mask or dropped edge needs particular register patterns.",
  [C + "reader.py"], [("Reader.gpio_to_waveforms, get_filter_for_redundant_states, get_gpio_pin_num", C + "reader.py")],
  ["Reader.gpio_to_waveforms()"])
# ---------------------------------------------------------------- UART
p("C13", "UART decoder returns every transmitted byte",
  "A well-formed 8N1 waveform (any byte values, back-to-back or with arbitrary idle gaps, edge jitter well below half a bit) decodes to exactly the transmitted bytes in order, each stamped with the time of its start bit. Inverted signals decode the same once inversion is detected or stated.",
  ["inputs"], "all byte values in messages of bounded length, all gap lengths, all bounded jitters, both polarities",
  "The test decodes one recorded ASCII trace: no byte above 0x7F, no jitter limits, few gap lengths.",
  [C + "decoder_waveform/uart.py"], [("Uart.get_symbols, detect_inversion, _add_duration", C + "decoder_waveform/uart.py")],
  ["Uart.get_symbols()"])
p("C14", "UART line splitting keeps every character",
  "Concatenating the decoded lines gives exactly the decoded symbols in order - no character is lost, duplicated or moved, whatever mixture of \\r, \\n and \\r\\n occurs and even when the last line is unterminated. Lines are cut exactly after \\n, \\r\\n or a lone \\r, and each line carries the timestamp of its first character.",
  ["inputs"], "all symbol sequences of bounded length over \\r, \\n and other characters",
  "The test data uses a single line-ending convention.",
  [C + "decoder_waveform/uart.py"], [("Uart.get_lines, get_text", C + "decoder_waveform/uart.py")],
  ["Uart.get_lines()", "Uart.get_text()"])
# ---------------------------------------------------------------- virtual source
p("C15", "Every valid virtual source maps to in-range, faithful PRU registers",
  "Every virtual-source config that passes validation converts to PRU registers without error; each register is the matching parameter in its register unit (mV->uV, mA->nA, ms->sample counts, uF->us/nF constant, mOhm->kOhm with 22 fractional bits), rounded, and fits its u32/u8 container. The mode bits state storage, boost, buck, log and feedback exactly as configured, with boost requiring storage and feedback requiring ivcurve input, storage and no boost.",
  ["inputs", "configurations"], "every value of every parameter within its declared range, all flag combinations and input types",
  "Tests convert the shipped fixtures; limits of the ranges (where u32 overflows or division breaks) are not reached.",
  [C + "data_models/content/virtual_source.py"],
  [("ConverterPRUConfig.from_vsrc, calc_converter_mode, calc_cap_constant_us_per_nF_n28", C + "data_models/content/virtual_source.py")],
  ["ConverterPRUConfig.from_vsrc()"])
p("C16", "Output-capacitor charge-up is accounted by energy balance",
  "The voltage drop applied when the output is enabled is exactly the one that moves the output capacitor's energy out of the storage capacitor (C_st*V_old^2 = C_st*V_new^2 + C_out*V_out^2), is never negative and never exceeds the storage voltage, and is zero when either capacitor is missing or the balance has no real solution. The output thresholds handed out are never below what the (buck) output stage needs to work.",
  ["inputs"], "all capacitor sizes, thresholds and output voltages in range, buck on/off",
  "Tests check only that the computation runs on the fixtures.",
  [C + "data_models/content/virtual_source.py"], [("VirtualSourceConfig.calc_internal_states", C + "data_models/content/virtual_source.py")],
  ["ConverterPRUConfig.from_vsrc().dV_enable_output_uV / V_enable_output_threshold_uV / V_disable_output_threshold_uV"])
p("C17", "Every valid harvester config maps to in-range, consistent PRU registers",
  "Every valid harvester config converts to u32 registers: voltages in uV, current limit in nA, setpoint as 8-bit fraction capped at 255, and interval/duration in samples with one settling step <= duration <= interval <= 1000 s (at least one full curve window when emulating). Voltage step and current limit never fall below four hardware LSB, window size follows the input datatype, the mode bits follow the config, and algorithms unusable for the direction (harvest / emulate) are refused.",
  ["inputs", "configurations"], "every value of every parameter within its declared range, all algorithms, directions and input types",
  "Tests convert the shipped fixtures only.",
  [C + "data_models/content/virtual_harvester.py"],
  [("HarvesterPRUConfig.from_vhrv, calc_timings_ms, calc_window_size, query_database", C + "data_models/content/virtual_harvester.py")],
  ["HarvesterPRUConfig.from_vhrv()"])
p("C18", "Simulated storage voltage stays physical and energy is conserved",
  "In every simulation step the storage voltage stays within [1 uV, configured maximum], changes by (input power - output power) integrated over the sample when a capacitor exists (before limiting), and follows the input directly when none exists. Input power is never negative and never exceeds (drop- and limit-corrected) input voltage times current, so nothing flows from an input below the storage voltage (only with harvester feedback, where the input is steered to the storage voltage, the storage voltage may stand in for the input voltage); output power always covers leakage plus output voltage times current at an efficiency of at most 100 %.",
  ["inputs", "histories"], "any converter state, config register values and any input voltage/current/ADC value: one inductive step",
  "Tests run a few hundred fixed steps on fixtures; any state x any input is out of their reach.",
  [C + "vsource/virtual_converter_model.py"],
  [("VirtualConverterModel.calc_inp_power, calc_out_power, update_cap_storage", C + "vsource/virtual_converter_model.py")],
  ["VirtualConverterModel"], )
p("C19", "Output switching, power-good and DAC obey their hysteresis",
  "At a threshold check the output turns on only at or above the enable threshold and off only below the disable threshold, and it never changes between checks; checks happen exactly every configured number of samples. Power-good falls at or below its disable threshold and rises only at or above its enable threshold while outputting; a disabled output gives 0 V and DAC code 0, and every DAC code lies in 0..65535 and encodes the intended output voltage (regulated, or storage minus drop).",
  ["inputs", "histories"], "any converter state and config: one inductive step, plus bounded histories from start",
  "Hysteresis is state dependent; tests walk single ramps.",
  [C + "vsource/virtual_converter_model.py"], [("VirtualConverterModel.update_states_and_output", C + "vsource/virtual_converter_model.py")],
  ["VirtualConverterModel.update_states_and_output(), V_out_dac_raw, get_power_good()"])
p("C20", "Converter efficiency is taken from the right table cell",
  "For every input voltage and current the input efficiency is the table entry whose voltage row (linear, capped at the last) and current column (octaves above the minimum, capped) contain the operating point, and likewise the output efficiency by current; the stored fixed-point entries equal the configured efficiencies to within quantisation, zero efficiency saturating instead of failing. No operating point raises an error or reads outside the table.",
  ["inputs"], "all voltages, currents, table origins and table contents",
  "Tests only probe a flat or fixture table at few points.",
  [C + "vsource/virtual_converter_model.py", C + "data_models/content/virtual_source.py"],
  [("get_input_efficiency / get_output_inv_efficiency", C + "vsource/virtual_converter_model.py"), ("from_vsrc LUT conversion", C + "data_models/content/virtual_source.py")],
  ["VirtualConverterModel.get_input_efficiency()", "get_output_inv_efficiency()"])
p("C21", "Harvesting algorithms only return plausible operating points",
  "Optimal MPPT returns a sample of the curve inside the voltage limits, at most two windows old, whose power no admissible sample since then exceeded; open-circuit MPPT steers to the configured fraction of the tracked open-circuit voltage, an admissible sample of the last two windows that no later one undercut; perturb-and-observe keeps its set-point within the configured limits, follows growing power and turns around when power drops. No extrapolation ever yields negative voltage or current. Without extrapolation constant-voltage harvesting returns only points that were actually on the curve, and ivsample input passes through unchanged.",
  ["inputs", "histories"], "any algorithm state and configuration with any next sample (one step), and bounded sample sequences from start",
  "Tests feed synthetic curves into the shipped harvesters and only look at total energy.",
  [C + "vsource/virtual_harvester_model.py"],
  [("VirtualHarvesterModel.ivcurve_*", C + "vsource/virtual_harvester_model.py")],
  ["VirtualHarvesterModel.ivcurve_sample(), voltage_set_uV"])
p("C22", "Simulated targets and ADC draw physical currents and account all energy",
  "Resistive, constant-current and constant-power targets draw exactly V/R, I or P/V depending on power-good (sleep values otherwise) and never fail or go negative, even while their supply is switched off. The ADC noise compensation never yields negative current and pays back at most its stored residue; source and harvester simulations report the energy that equals the sum over the produced samples of V*I*dt, and write exactly those samples.",
  ["inputs", "histories"], "all voltages >= 0, target parameters and power-good states; all raw ADC sequences; bounded input files",
  "Tests use few fixed targets that never see 0 V.",
  [C + "vsource/target_model.py", C + "vsource/virtual_source_simulation.py", C + "vsource/virtual_harvester_simulation.py", C + "vsource/virtual_converter_model.py"],
  [("TargetABC.step", C + "vsource/target_model.py"), ("PruCalibration.conv_adc_raw_to_nA", C + "vsource/virtual_converter_model.py"), ("simulate_source/simulate_harvester", C + "vsource/virtual_source_simulation.py")],
  ["TargetABC.step()", "simulate_source()", "simulate_harvester()"])
# ---------------------------------------------------------------- models / testbed
p("C23", "Model inheritance resolves to the nearest explicit value",
  "An element that inherits gets for every parameter its own explicit value if given, else the value of the nearest ancestor that sets it, along chains of any depth; identity fields of its own are kept. Unknown ancestors and circular inheritance raise ValueError instead of looping, and resolving alters neither the given element nor the stored database elements.",
  ["inputs", "configurations"], "all assignments of parameters over an inheritance graph of bounded size, including cycles",
  "Tests use the shipped acyclic fixtures.",
  [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"],
  [("Fixture.inheritance", C + "testbed_client/fixtures.py"), ("AbcClient.try_completing_model", C + "testbed_client/client_abc_fix.py")],
  ["Fixture.inheritance()", "tb_client.try_completing_model()"])
p("C24", "Experiments with colliding or impossible targets are rejected",
  "An experiment is accepted only if each target appears once, each observer serves at most one target, all targets exist and are reachable, firmware fits the MCUs, and all node IDs that end up on the targets (custom or default) are pairwise different; custom IDs are assigned positionally and never run short. Experiments fulfilling this are accepted.",
  ["inputs", "configurations"], "all target/custom ID assignments over a bounded number of target groups",
  "Tests try a few duplicates; collisions between custom and default IDs across groups are not covered.",
  [C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py"],
  [("Experiment.post_validation", C + "data_models/experiment/experiment.py"), ("TargetConfig.post_validation, get_custom_id", C + "data_models/experiment/target_config.py")],
  ["Experiment()", "TargetConfig()"])
p("C25", "Testbed tasks reproduce the experiment on the right observer",
  "Converting an experiment yields exactly one task set per target, for the observer that hosts it, on the port that target is connected to, with that target group's energy environment, source, tracing and firmware; the node ID patched in is the target's custom or testbed ID. Modified firmware is written to the same file that is programmed, per MCU and observer, every observer has its own output file, and start/duration are carried over unchanged with preparation starting the testbed's preparation time earlier.",
  ["inputs", "configurations"], "all assignments of targets to ports/observers and groups, optional features, IDs and times (bounded count)",
  "Tests convert a few example experiments without inspecting port, path and ID consistency.",
  [C + "data_models/task/"],
  [("TestbedTasks/ObserverTasks/EmulationTask/FirmwareModTask/ProgrammingTask.from_xp", C + "data_models/task/")],
  ["TestbedTasks.from_xp()"])
p("C26", "Testbed lookup finds the one active host of a target",
  "Looking up a target returns an observer that is active, has an active cape and hosts that active target, whenever one exists, and raises a clear lookup error otherwise - decommissioned or cape-less observers never get in the way; port and target object belong to that ID. A testbed in which an observer, address, cape, target or network port is used twice, or an observer with targets but no cape, is rejected, and only those are.",
  ["inputs", "configurations"], "all patterns of activity, missing parts and identifiers over a bounded number of observers",
  "The single fixture testbed is complete and consistent.",
  [C + "data_models/testbed/testbed.py", C + "data_models/testbed/observer.py"],
  [("Testbed.get_observer, post_validation", C + "data_models/testbed/testbed.py"), ("Observer.has_target/get_target/get_target_port", C + "data_models/testbed/observer.py")],
  ["Testbed.get_observer()", "Observer.get_target_port()", "Observer.get_target()"])
p("C27", "Tasks and features with impossible timing or settings are rejected",
  "Emulation and harvest tasks, experiments and tracing configs are refused if a duration or delay is negative, the tasks also if their start time lies in the past; they are accepted otherwise with the times preserved, and start times given as unix time, text or naive (local) date denote the same instant. Tracing configs that would discard everything or trace no or unknown pins, actuation of uncontrollable pins, and an auxiliary voltage that is neither 0 to 4.5 V nor one of the named sources are refused.",
  ["inputs", "configurations"], "all durations, delays, start instants relative to now, and flag combinations",
  "Tests check single bad values, not the boundary for every field and input form.",
  [C + "data_models/task/emulation.py", C + "data_models/task/harvest.py", C + "data_models/experiment/observer_features.py", C + "data_models/experiment/experiment.py"],
  [("post_validation / pre_correction", C + "data_models/task/emulation.py"), ("PowerTracing/GpioTracing/GpioEvent validators", C + "data_models/experiment/observer_features.py")],
  ["EmulationTask()", "HarvestTask()", "PowerTracing()", "GpioTracing()", "Experiment()"])
p("C28", "Storing a model to file and loading it restores the same model",
  "Any model instance stored to a YAML file, minimal or complete, loads back as an equal instance, including durations with fractions of a second, paths, addresses and unset options (values that are generated for each new instance, like ids and creation dates, are only part of complete files). Loading a file of a different model type is refused.",
  ["inputs"], "all values of the time, numeric, path and optional fields of the models",
  "Tests round-trip defaults and a few values; fractions of seconds are never stored.",
  [C + "data_models/base/shepherd.py", C + "data_models/base/wrapper.py"],
  [("ShpModel.to_file / from_file and YAML representers", C + "data_models/base/shepherd.py")],
  ["ShpModel.to_file()", "ShpModel.from_file()"])
p("C29", "Periodic GPIO events have exactly the configured count and times",
  "The events of a GPIO actuation are exactly `count` many, the first at `delay` and each following one `period` later, up to floating-point precision.",
  ["inputs"], "all delays > 0, periods >= 10 us and counts 1..4096",
  "The end point of a float range is rounding dependent: only particular delay/period/count values give an extra event.",
  [C + "data_models/experiment/observer_features.py"], [("GpioEvent.get_events", C + "data_models/experiment/observer_features.py")],
  ["GpioEvent.get_events()"])
p("C30", "Firmware is identified by content and patched in place",
  "Embedded firmware whose hash differs from the stated one is rejected, and a hash comparison against data or file succeeds exactly when the hashes match. Patching a node ID writes exactly the two bytes of the ID symbol in the ELF's byte order and nothing else, reads back as that ID, and fails cleanly without writing when the symbol is missing or the value does not fit into 16 bit; MCU detection accepts a HEX as msp430 only if it starts at the msp430 flash and its reset vector points into it.",
  ["inputs"], "all IDs 0..65535, both byte orders, symbol addresses and file contents; hex images described by start address, reset vector and size",
  "Tests patch two demo ELFs with few IDs.",
  [C + "fw_tools/patcher.py", C + "fw_tools/validation.py", C + "data_models/content/firmware.py"],
  [("modify_symbol_value, read_symbol", C + "fw_tools/patcher.py"), ("is_hex_msp430", C + "fw_tools/validation.py"), ("Firmware.query_database, compare_hash", C + "data_models/content/firmware.py")],
  ["fw_tools.modify_uid()/read_uid()", "fw_tools.is_hex_msp430()", "Firmware.compare_hash()"])
p("C31", "Task files are wrapped and unwrapped for the right observer",
  "Preparing a task for an observer wraps that observer's task set if the config contains testbed tasks, and otherwise wraps the given task unchanged; an observer that is not part of it is an error. Extracting returns the contained tasks in execution order (modify firmware 1, 2, program 1, 2, emulate), without empty ones, as the right model type with identical content; unknown or nested-forbidden types are errors.",
  ["inputs", "configurations"], "every subset of present tasks, every observer selection, all wrapped task types",
  "Tests extract from a few fully populated examples.",
  [C + "data_models/task/__init__.py", C + "data_models/task/observer_tasks.py", C + "data_models/task/testbed_tasks.py"],
  [("prepare_task, extract_tasks", C + "data_models/task/__init__.py"), ("ObserverTasks.get_tasks", C + "data_models/task/observer_tasks.py")],
  ["prepare_task()", "extract_tasks()"])
# ---------------------------------------------------------------- shepherd_data
p("C32", "Down-sampling decimates on a uniform grid, independent of block borders",
  "Down-sampling by a factor f yields floor(n/f) samples, output k taken from (filtered) input start + k*f, for any range, factor and internal block size; a factor of one copies unchanged. The timestamps are decimated on exactly the same grid as the values, so all datasets keep equal length.",
  ["inputs"], "every dataset length and content, range, factor and internal block length",
  "Test files fit in one processing block (40 s), so alignment across blocks is never exercised.",
  [D + "reader.py"], [("Reader.downsample", D + "reader.py")], ["Reader.downsample()"])
p("C33", "Cutting keeps exactly the requested time range",
  "A cut from start to end seconds covers exactly the samples of that range (clamped to the recording, rounded to samples), missing bounds meaning the whole recording (at the default sample rate every recording is stored in full buffers of 0.1 s, so an incomplete last buffer is left out); the derived file keeps mode, datatype, window size, calibration, hostname and config of the source. Reversed ranges, factors below one or ranges that yield fewer than 1000 samples are refused before any file is created, and an already existing result is never overwritten.",
  ["inputs"], "all start/end/factor values, recording lengths and sample rates, presence of the output file",
  "Tests cut with a few in-range values.",
  [D + "reader.py"], [("Reader.cut_and_downsample_to_file", D + "reader.py")],
  ["Reader.cut_and_downsample_to_file()"])
p("C34", "Command line tools fail loudly on bad files and treat files independently",
  "`validate` exits non-zero exactly when at least one examined file is missing validity - unreadable, structurally invalid or with time jumps - regardless of its position in the list. Batch commands apply the user's options to every file independently of the other files, and one bad file never prevents the remaining ones from being processed.",
  ["inputs", "fault_sequences"], "every sequence of good/invalid/unreadable files of bounded length and every option combination",
  "Tests call the commands on directories of good files only.",
  [D + "cli.py"], [("validate, downsample, extract, path_to_flist", D + "cli.py")],
  ["shepherd-data validate exit status", "files processed per command"])
p("C35", "CSV and log exports contain every record, converted as documented",
  "Exporting a group writes one row per record, in order, each with its timestamp and every other dataset in header order, converted by that dataset's gain and offset (identity when it has none) or left raw on request; the reported number of rows is the number written. Waveform exports hold one row per edge with time in seconds and level. Existing export files are never overwritten and empty groups produce none; log warnings are counted per level as requested.",
  ["inputs", "configurations"], "all group layouts, values, presence of gain/offset attributes and of the output file",
  "Tests only check that export files are generated.",
  [D + "reader.py"], [("Reader.save_csv, save_log, warn_logs", D + "reader.py"), ("Reader.waveform_to_csv", C + "reader.py")],
  ["Reader.save_csv()", "Reader.save_log()"])
# ---------------------------------------------------------------- declined
p("C36", "Calibration fit recovers the measured line",
  "Fitting calibration measurements yields the least-squares line of reference over raw values. Measurements that do not correlate linearly (r-squared below 0.999, constant references included) or fall are refused. Every channel of harvester and emulator gets the line of its own measurement; channels without measurement keep the default.",
  ["inputs"], "all measurement sets of at least two points",
  "Tests fit a few synthetic measurement sets.",
  [C + "data_models/base/cal_measurement.py"], [("meas_to_cal", C + "data_models/base/cal_measurement.py")], ["meas_to_cal()"])
p("C37", "Embedding firmware is lossless",
  "A firmware file embedded into a model (compressed, base64) and extracted again is bit-identical, whatever its content and size. The stored hash identifies exactly that content: data with another hash is refused, other files are told apart, and faulty embedded data is refused with a validation error. The extracted file gets the suffix of its data type, replaces an older file and leaves the source alone.",
  ["inputs"], "all file contents",
  "Tests embed a handful of files.",
  [C + "fw_tools/converter.py"], [("file_to_base64, base64_to_file, file_to_hash", C + "fw_tools/converter.py")], ["extract_firmware()"])
p("C38", "Diode target solves its own current equation",
  "The burn-diode target draws the current at which resistor and Shockley diode agree, to within a small tolerance, for every supply voltage.",
  ["inputs"], "all voltages and diode parameters",
  "Tests sample a few voltages.",
  [C + "vsource/target_model.py"], [("DiodeTarget.step", C + "vsource/target_model.py")], ["DiodeTarget.step()"])
p("C39", "Voltage step of a recording is reported in volts",
  "The voltage step a reader reports is the stored harvester setting when there is one, otherwise the smallest change between consecutive voltage samples, in volts, no matter whether the curve rises or falls; recordings with constant voltage report none. Simulating sources and harvesters relies on it.",
  ["inputs", "configurations"], "all (short) recordings, calibrations and stored configs",
  "Tests only read one synthetic rising curve.",
  [C + "reader.py"], [("Reader.get_voltage_step", C + "reader.py")], ["Reader.get_voltage_step()"])
p("C40", "Plots show exactly the requested part of a recording in SI units",
  "Plot data cover exactly the requested section (the whole recording where unspecified, clamped to it): time, voltage and current are equally long and element k is source sample start + k*factor, complete whenever it fits the requested number of elements, not decimated further than needed and never more than twice that number. Values are converted with the calibration of the file, time is relative to the start of the recording or absolute. Fewer than five samples yield nothing. The figure draws volts, milliamperes and milliwatts (their product), one line per source; an existing image is never overwritten and another range gets its own image.",
  ["inputs", "configurations"], "every recording length, start/end, number of elements, content and calibration",
  "Tests plot one file and do not look at what is drawn.",
  [D + "reader.py"], [("Reader.generate_plot_data, plot_to_file, multiplot_to_file", D + "reader.py")],
  ["Reader.generate_plot_data()", "Reader.plot_to_file()", "Reader.multiplot_to_file()"])
p("C41", "Maximum power trackers of ivonne deliver points of the panel's curve",
  "The panel model is the diode equation, never negative, for scalars and arrays alike. The optimal tracker returns for every row a point of that row's curve and no point of the grid yields more power. The open-circuit tracker returns the highest grid voltage below its ratio of the open-circuit voltage (0 V if there is none) with the curve's current there; without a given open-circuit voltage it is approximated next to the last point whose current reaches 5 % of the short-circuit current (the last grid voltage if the curve is cut off before). One result per row, inputs stay untouched.",
  ["inputs"], "all panel currents, open-circuit voltages, ratios and grids",
  "Tests convert one recording and do not look at the values.",
  [D + "mppt.py"], [("iv_model, find_oc, OpenCircuitTracker.process, OptimalTracker.process", D + "mppt.py")],
  ["mppt.iv_model()", "MPPTracker.process()"])
p("C42", "Converted ivonne recordings are gap-free and keep the panel's values",
  "Converting an ivonne recording (curves, tracked samples, or open-circuit voltage and short-circuit current) yields a gap-free series on the output's sampling grid from the first row up to the last one or the requested duration, independent of internal blocks and for recordings of any length: at every recorded instant it holds exactly that row's curve, the tracker's result or its (voltage-limited) open-circuit voltage and short-circuit current. The file is labelled with the matching data type and window size, without a named tracker the optimal one is used, and an already existing output is left untouched.",
  ["inputs", "configurations"], "every recording length and content, duration, voltage limit and block size",
  "Tests convert one long recording once per mode and never look at block borders or values.",
  [D + "ivonne.py"], [("Reader.convert_2_ivcurves, convert_2_ivsamples, upsample_2_isc_voc", D + "ivonne.py")],
  ["ivonne.Reader.convert_2_ivcurves()", "ivonne.Reader.convert_2_ivsamples()", "ivonne.Reader.upsample_2_isc_voc()"])
p("C43", "Exported metadata mirrors structure and attributes of a file",
  "The metadata of a file (or of one node of it) lists every group, dataset and attribute at its place and nothing else: numbers and lists with their value, texts parsed as YAML where they are valid YAML and unchanged otherwise - whatever the text. Computed information (energy, runtime, validity, statistics of integer datasets, time steps) is added only on request and agrees with the reader's own answers. Saving writes exactly that tree as YAML next to the recording and never touches an existing export.",
  ["inputs", "configurations"], "every layout of groups, datasets and attributes, all numbers and texts",
  "Tests only check that metadata of a well-formed recording can be exported.",
  [C + "reader.py"], [("Reader.get_metadata, save_metadata", C + "reader.py")],
  ["Reader.get_metadata()", "Reader.save_metadata()"])
p("C44", "Content has safe names, printable texts, an owner, and a description if public",
  "Models of content and experiments accept exactly those names (also of owner and group) of 1 to 32 characters without < > : ; , ? \" * | / \\ - they end up in file names - and only printable ASCII in descriptions and comments; surrounding white space is dropped. Content visible to a group or everybody is refused without a description, whatever else is given, and is private by default. Owner and group are filled in when missing and never replaced.",
  ["inputs", "configurations"], "every character at every kind of position, all lengths, all combinations of visibility, texts and ownership",
  "Tests use ordinary names and one public model.",
  [C + "data_models/base/content.py", C + "testbed_client/client_abc_fix.py"],
  [("NameStr, SafeStr, ContentModel.content_validation", C + "data_models/base/content.py"), ("FixturesClient.fill_in_user_data", C + "testbed_client/client_abc_fix.py")],
  ["EnergyEnvironment()", "VirtualSourceConfig()", "VirtualHarvesterConfig()", "Experiment()"])
p("C45", "The element store serves what its files hold",
  "A collection of fixtures loaded from an explicit file or directory serves exactly the elements in those YAML files: each one by type and name (any case) and by id, with the parameters written there; other items and files are ignored, and asking for an unknown type, name, id or place fails. Elements inserted later are served alike, and one that comes again replaces the former. A cached copy is served only in place of the shipped default set, never on the boards, never when a reset is asked and never when it is older than 24 h; a cache that is kept holds the shipped set. The offline client lists and returns exactly the elements of the shipped set.",
  ["inputs", "histories", "configurations"], "all ids, parameters and spreads of small collections, all cache ages and histories of earlier loads",
  "Tests load the shipped set once per session, from whatever cache is there.",
  [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"],
  [("Fixtures, Fixture", C + "testbed_client/fixtures.py"), ("FixturesClient", C + "testbed_client/client_abc_fix.py")],
  ["Fixtures()", "FixturesClient()"])
p("C46", "Comparing device inventories warns about exactly the odd devices",
  "The warnings of an inventory list contain an uptime warning exactly if a device runs longer than 30 h and a time warning exactly if a device's inventory was created more than 10 s after the earliest one, each naming such a device; and for each relevant package (h5py, numpy, pydantic, python, shepherd_core, shepherd_sheep, yaml, zstandard) a mismatch exactly if installed versions differ, naming versions and devices. Missing packages and any other content of the inventories neither cause warnings nor failures.",
  ["inputs", "configurations"], "all uptimes, creation times and version combinations of small device lists",
  "Tests collect one inventory and never compare.",
  [C + "inventory/__init__.py"], [("InventoryList.warn", C + "inventory/__init__.py")], ["InventoryList.warn()"])
p("C47", "Local time is the wall clock in force",
  "The local timezone has the offset that is in force right now, daylight saving included, in every zone; the local now is the current instant expressed in it, and the local date is the date there. A file counts as older than a limit exactly if it was modified longer ago than that, in every zone.",
  ["inputs", "configurations"], "all standard offsets and daylight shifts, all ages and limits",
  "Tests run in one timezone without daylight saving.",
  [C + "data_models/base/timezone.py", C + "testbed_client/fixtures.py"],
  [("local_tz, local_now, local_iso_date", C + "data_models/base/timezone.py"), ("file_older_than", C + "testbed_client/fixtures.py")],
  ["local_tz()", "local_now()"])
p("C48", "A web session speaks for the caller it was opened by",
  "Opening a web client presents the token it was given - as text or read from a file - to the server, or the public one if none was given; a missing token file fails before anything is sent. All requests go to the given server (lower-case) or the default one, the session key is asked for first, and a refused request shows as failure. Missing owner and group are filled in from the account of the user that the server named, given ones stay. Inserting a model posts it once, with its type and all parameters.",
  ["inputs", "faults"], "all printable tokens of bounded length, all patterns of owner and group, refusals at each request",
  "Tests have no server.",
  [C + "testbed_client/client_web.py"], [("WebClient", C + "testbed_client/client_web.py")], ["WebClient()"])
p("C49", "Hardware descriptions are complete and stay within the hardware's limits",
  "A pin description is accepted exactly if it is wired to the real-time unit or to the system with both register and pin, within the text and number limits, and counts as user-controllable exactly if it is an output of the gpio group. A microcontroller needs a known programming protocol, 1..5 V and 1..1,000,000 baud. A target names its controllers by name, query or description - unknown ones are refused - and has a 16-bit id within the testbed, the given one or else its id modulo 65536. Ids lie in 0..2^128-1; recordings have positive duration and energy and count as unvalidated. Anything incomplete is refused with a validation error, and what is accepted is kept as given.",
  ["inputs", "configurations"], "all ids, limits, wiring patterns and ways to name a controller",
  "Tests create a few examples from the shipped set.",
  [C + "data_models/testbed/gpio.py", C + "data_models/testbed/mcu.py", C + "data_models/testbed/target.py", C + "data_models/content/energy_environment.py"],
  [("GPIO", C + "data_models/testbed/gpio.py"), ("MCU", C + "data_models/testbed/mcu.py"), ("Target", C + "data_models/testbed/target.py"),
   ("EnergyEnvironment", C + "data_models/content/energy_environment.py")],
  ["GPIO()", "MCU()", "Target()", "EnergyEnvironment()"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
for q in P:
    assert len(q["title"]) <= 80, q["title"]
out.write_text("".join(json.dumps(q, ensure_ascii=False) + "\n" for q in P))
print(len(P), "properties")
