"""sweep.py N SEED [IDS..]: AST mutants in the functions behind each property; runs the property's check on a copy of /repo.
Mutants the check does not report are run through the repository's tests; the remaining ones are printed for triage."""
import ast, copy, json, os, random, subprocess, sys, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, D = "shepherd_core/shepherd_core/", "shepherd_data/shepherd_data/"
CAL, RD, WR = C + "data_models/base/calibration.py", C + "reader.py", C + "writer.py"
VS, VH = C + "data_models/content/virtual_source.py", C + "data_models/content/virtual_harvester.py"
CM = C + "vsource/virtual_converter_model.py"
DM = C + "data_models/"
MAP = {
 "C01": [(CAL, ["CalibrationPair.raw_to_si", "CalibrationPair.si_to_raw"])],
 "C02": [(CAL, ["CalibrationCape.to_bytestr", "CalibrationCape.from_bytestr", "dict_generator"])],
 "C03": [(CAL, ["CalibrationHarvester.export_for_sysfs", "CalibrationEmulator.export_for_sysfs"])],
 "C04": [(C + "calibration_hw_def.py", None), (CAL, ["CalibrationSeries.from_cal", "CalibrationPair.from_fn"])],
 "C05": [(WR, ["Writer.append_iv_data_raw", "Writer.append_iv_data_si"])],
 "C06": [(WR, ["Writer.__exit__", "Writer._align"]), (RD, ["Reader._refresh_file_stats"])],
 "C07": [(RD, ["Reader.read_buffers"])],
 "C08": [(WR, ["Writer.__init__", "Writer.store_config", "Writer.store_hostname", "Writer.__enter__"]),
         (RD, ["Reader.__init__", "Reader.get_mode", "Reader.get_datatype", "Reader.get_window_samples", "Reader.get_calibration_data", "Reader.get_hostname", "Reader.get_config", "Reader.get_hrv_config"])],
 "C09": [(RD, ["Reader.is_valid", "Reader.count_errors_in_log"])],
 "C10": [(RD, ["Reader.energy", "Reader._dset_statistics", "Reader._data_timediffs", "Reader.check_timediffs", "Reader.get_metadata"])],
 "C11": [(WR, ["unique_path", "Writer.__init__", "path2str"])],
 "C12": [(RD, ["Reader.gpio_to_waveforms", "Reader.get_filter_for_redundant_states", "get_filter_for_redundant_states", "Reader.get_gpio_pin_num"])],
 "C13": [(C + "decoder_waveform/uart.py", ["Uart.__init__", "Uart.get_symbols", "Uart.detect_inversion", "Uart._add_duration", "Uart._convert_analog2digital", "Uart._filter_redundant_states", "Uart.detect_baud_rate", "Uart.detect_half_stop", "Uart.detect_dataframe_length"])],
 "C14": [(C + "decoder_waveform/uart.py", ["Uart.get_lines", "Uart.get_text"])],
 "C15": [(VS, ["ConverterPRUConfig.from_vsrc", "VirtualSourceConfig.calc_converter_mode", "VirtualSourceConfig.calc_cap_constant_us_per_nF_n28", "VirtualSourceConfig.post_validation", "VirtualSourceConfig.query_database"])],
 "C16": [(VS, ["VirtualSourceConfig.calc_internal_states"])],
 "C17": [(VH, ["HarvesterPRUConfig.from_vhrv", "VirtualHarvesterConfig.calc_timings_ms", "VirtualHarvesterConfig.calc_window_size", "VirtualHarvesterConfig.query_database", "VirtualHarvesterConfig.post_validation", "VirtualHarvesterConfig.calc_hrv_mode", "VirtualHarvesterConfig.calc_algorithm_num", "HarvesterPRUConfig._calc_timings_ms", "VirtualHarvesterConfig.get_datatype"])],
 "C18": [(CM, ["VirtualConverterModel.calc_inp_power", "VirtualConverterModel.calc_out_power", "VirtualConverterModel.update_cap_storage", "VirtualConverterModel.__init__"])],
 "C19": [(CM, ["VirtualConverterModel.update_states_and_output", "VirtualConverterModel.get_power_good"]), (CM, ["PruCalibration.conv_uV_to_dac_raw"])],
 "C20": [(CM, ["VirtualConverterModel.get_input_efficiency", "VirtualConverterModel.get_output_inv_efficiency"])],
 "C21": [(C + "vsource/virtual_harvester_model.py", None)],
 "C22": [(C + "vsource/target_model.py", ["ResistiveTarget.step", "ConstantCurrentTarget.step", "ConstantPowerTarget.step", "ConstantCurrentTarget.__init__", "ConstantPowerTarget.__init__"]), (C + "vsource/virtual_source_simulation.py", None), (C + "vsource/virtual_harvester_simulation.py", None), (CM, ["PruCalibration.conv_adc_raw_to_nA", "PruCalibration.conv_adc_raw_to_uV"]), (C + "vsource/virtual_source_model.py", None)],
 "C23": [(C + "testbed_client/fixtures.py", ["Fixture.inheritance", "Fixture.insert", "Fixture.__getitem__", "Fixture.query_id", "Fixture.query_name", "Fixtures.insert_file"]), (C + "testbed_client/client_abc_fix.py", None)],
 "C24": [(DM + "experiment/experiment.py", None), (DM + "experiment/target_config.py", None)],
 "C25": [(DM + "task/emulation.py", ["EmulationTask.from_xp"]), (DM + "task/firmware_mod.py", ["FirmwareModTask.from_xp"]), (DM + "task/programming.py", ["ProgrammingTask.from_xp"]), (DM + "task/observer_tasks.py", None), (DM + "task/testbed_tasks.py", None), (DM + "experiment/experiment.py", ["Experiment.get_target_config", "Experiment.get_target_ids", "Experiment.get_target_sets"])],
 "C26": [(DM + "testbed/testbed.py", None), (DM + "testbed/observer.py", None)],
 "C27": [(DM + "task/emulation.py", ["EmulationTask.post_validation", "EmulationTask.pre_correction"]), (DM + "task/harvest.py", None), (DM + "experiment/observer_features.py", None), (DM + "experiment/experiment.py", ["Experiment.post_validation", "Experiment.pre_correction"])],
 "C28": [(DM + "base/shepherd.py", None), (DM + "base/timezone.py", None)],
 "C29": [(DM + "experiment/observer_features.py", ["GpioEvent.get_events", "GpioEvent.post_validation"])],
 "C30": [(C + "fw_tools/patcher.py", None), (C + "fw_tools/validation.py", None), (DM + "content/firmware.py", None)],
 "C31": [(DM + "task/__init__.py", None), (DM + "task/observer_tasks.py", ["ObserverTasks.get_tasks"]), (DM + "task/testbed_tasks.py", ["TestbedTasks.get_observer_tasks", "TestbedTasks.is_contained"])],
 "C32": [(D + "reader.py", ["Reader.downsample"])],
 "C33": [(D + "reader.py", ["Reader.cut_and_downsample_to_file"])],
 "C34": [(D + "cli.py", None)],
 "C35": [(D + "reader.py", ["Reader.save_csv", "Reader.save_log", "Reader.warn_logs"]), (RD, ["Reader.waveform_to_csv"])],
 "C36": [(DM + "base/cal_measurement.py", None)],
 "C37": [(C + "fw_tools/converter.py", None), (DM + "content/firmware.py", ["Firmware.extract_firmware", "Firmware.query_database", "Firmware.from_firmware", "Firmware.compare_hash"])],
 "C39": [(RD, ["Reader.get_voltage_step"])],
 "C40": [(D + "reader.py", ["Reader.generate_plot_data", "Reader.assemble_plot", "Reader.plot_to_file", "Reader.multiplot_to_file"])],
 "C41": [(D + "mppt.py", None)],
 "C42": [(D + "ivonne.py", None)],
 "C43": [(RD, ["Reader.get_metadata", "Reader.save_metadata"])],
 "C44": [(DM + "base/content.py", None), (C + "testbed_client/client_abc_fix.py", None)],
 "C46": [(C + "inventory/__init__.py", None)],
 "C45": [(C + "testbed_client/fixtures.py", ["Fixtures.__init__", "Fixtures.insert_file", "Fixtures.insert_model", "Fixtures.__getitem__", "Fixture.insert", "Fixture.__getitem__", "Fixture.query_id", "Fixture.query_name", "Fixture.__next__", "Fixture.__iter__", "Fixture.refs"]), (C + "testbed_client/client_abc_fix.py", None)],
 "C48": [(C + "testbed_client/client_web.py", None)],
 "C49": [(DM + "testbed/gpio.py", None), (DM + "testbed/target.py", None)],
 "C47": [(DM + "base/timezone.py", None), (C + "testbed_client/fixtures.py", ["file_older_than"])],
}
for k in list(MAP):
    MAP[k] = [(f, q) for f, q in MAP[k] if os.path.exists("/repo/" + f)]


def funcs(tree):
    out = []
    def walk(n, pre):
        for c in getattr(n, "body", []):
            if isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + c.name, c))
                walk(c, pre + c.name + ".")
    walk(tree, "")
    return out


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def sites(fn):
    """list of (description, function(node_copy_root) applied by path)"""
    out = []
    def islog(n):
        t = ast.unparse(n)
        return "logger." in t or "_logger" in t or t.startswith(("click.echo", "print("))
    def rec(parent, field, idx, n):
        if isinstance(n, (ast.Expr, ast.Call)) and islog(n):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        loc = (parent, field, idx)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n); m.ops = [o()]; out.append((loc, n, m))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                m = copy.deepcopy(n); m.op = o(); out.append((loc, n, m))
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); out.append((loc, n, m))
            m = copy.deepcopy(n); m = m.values[0]; out.append((loc, n, m))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((loc, n, copy.deepcopy(n.operand)))
        if isinstance(n, ast.Constant) and field != "slice_doc":
            v = n.value
            if isinstance(v, bool):
                out.append((loc, n, ast.Constant(not v)))
            elif isinstance(v, int):
                out.append((loc, n, ast.Constant(v + 1)))
                if v > 0: out.append((loc, n, ast.Constant(v - 1)))
            elif isinstance(v, float):
                out.append((loc, n, ast.Constant(v * 1.01 if v else 0.01)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            m = copy.deepcopy(n); m.func.id = "max" if n.func.id == "min" else "min"; out.append((loc, n, m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("round", "int", "abs", "sorted", "float") and len(n.args) == 1:
            out.append((loc, n, copy.deepcopy(n.args[0])))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                out.append((loc, n, ast.Pass()))
        if isinstance(n, ast.If):
            m = copy.deepcopy(n); m.test = ast.Constant(False); out.append((loc, n, m))
            m = copy.deepcopy(n); m.test = ast.Constant(True); out.append((loc, n, m))
        if isinstance(n, (ast.Continue, ast.Break)):
            out.append((loc, n, ast.Pass()))
        if isinstance(n, ast.IfExp):
            out.append((loc, n, copy.deepcopy(n.body))); out.append((loc, n, copy.deepcopy(n.orelse)))
        if isinstance(n, ast.Slice) and n.step is None:
            for e in ("lower", "upper"):
                x = getattr(n, e)
                if x is not None and not isinstance(x, ast.Constant):
                    m = copy.deepcopy(n); setattr(m, e, ast.BinOp(copy.deepcopy(x), ast.Add(), ast.Constant(1))); out.append((loc, n, m))
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "returns", "args") and isinstance(n, (ast.FunctionDef,)):
                continue
            if f == "annotation":
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST): rec(n, f, i, x)
            elif isinstance(v, ast.AST):
                rec(n, f, None, v)
    for i, s in enumerate(fn.body):
        rec(fn, "body", i, s)
    return out


def put(loc, new):
    p, f, i = loc
    if i is None:
        setattr(p, f, new)
    else:
        getattr(p, f)[i] = new


def mutants(prop):
    out = []
    for f, names in MAP[prop]:
        src = open("/repo/" + f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for q, fn in funcs(tree):
            if names is not None and q not in names:
                continue
            for loc, old, new in sites(fn):
                put(loc, ast.copy_location(new, old))
                try:
                    t = ast.unparse(ast.fix_missing_locations(tree))
                finally:
                    put(loc, old)
                if t != base:
                    d = [x for x in difflib.unified_diff(base.splitlines(), t.splitlines(), n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
                    out.append((f, q, t, d))
    return out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    ids = sys.argv[3:] or list(MAP)
    w = f"/tmp/sweep_{os.getpid()}"
    os.makedirs(w)
    for x in ("shepherd_core", "shepherd_data", "pyproject.toml"):
        subprocess.run(["cp", "-a", "/repo/" + x, w], check=True)
    rnd = random.Random(seed)
    for prop in ids:
        ms = mutants(prop)
        pick = rnd.sample(ms, min(n, len(ms)))
        for f, q, t, d in pick:
            orig = open("/repo/" + f).read()
            open(f"{w}/{f}", "w").write(t)
            try:
                r = subprocess.run(["/opt/venv/bin/python", f"{V}/check.py", prop], env={**os.environ, "SYMX_REPO": w, "SYMX_NOEV": "1"},
                                   capture_output=True, text=True, timeout=600)
                rc = r.returncode
                inc = r.stdout.count("INCONCLUSIVE")
            except subprocess.TimeoutExpired:
                rc, inc = "timeout", 0
            tests = ""
            if rc != 1:
                e = {**os.environ, "PYTHONPATH": f"{w}/shepherd_core:{w}/shepherd_data", "TZ": "UTC", "MPLBACKEND": "Agg", "PWNLIB_NOTERM": "1", "HOME": w}
                ps = [subprocess.Popen(["/opt/venv/bin/python", "-m", "pytest", "tests", "-c", "pyproject.toml", f"--rootdir={w}", "-o", "addopts=", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", f"--basetemp={w}/.tmp_{p}"],
                      cwd=f"{w}/{p}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True) for p in ("shepherd_core", "shepherd_data")]
                o = [p.communicate()[0] for p in ps]
                tests = "tests:" + "/".join(str(p.returncode) for p in ps)
            open(f"{w}/{f}", "w").write(orig)
            print(json.dumps({"p": prop, "q": q, "rc": rc, "inc": inc, "tests": tests, "d": d[:6]}), flush=True)
    shutil.rmtree(w)


main()
