"""C31 task files are wrapped and unwrapped for the right observer"""
from pathlib import Path

from .c28 import emulate, experiment, harvest, instant, modify, modify_plain, programming, same

BOUNDS = ("every combination of the five tasks of an observer, task sets of 1..3 observers, selection of each or of an unknown observer, "
          "numeric, boolean and time fields of the tasks symbolic, configs given as model, path or text")
OUTSIDE = "more than 3 observers; fields of the tasks beyond the listed ones (C28)"
STUBS = ["yaml documents with symbolic values (see C28)", "clock stands still during symbolic execution", "logging disabled"]
MODULES = ("shepherd_core", "shepherd_core.data_models.task", "shepherd_core.data_models.experiment", "shepherd_core.data_models.testbed",
           "shepherd_core.data_models.content")
FAKE_H5 = False
TIME = True
YAML = True
ORDER = ("fw1_mod", "fw2_mod", "fw1_prog", "fw2_prog", "emulation")
NAMES = ("obs1", "obs10", "Obs1")


def cases(tier):
    out = [(f"single/{k}/{v}", "single", {"name": k, "via": v}) for k in SINGLE for v in ("model", "path", "text")]
    out += [(f"observer/{v}", "observer", {"via": v}) for v in ("model", "path", "text")]
    out += [(f"set/{n}/{v}", "task_set", {"n": n, "via": v}) for n in (1, 2, 3) for v in ("model", "path")]
    out += [(f"whole/{v}", "whole", {"via": v}) for v in ("model", "path", "text")]
    out += [("unknown", "unknown", {}), ("input", "odd_input", {}), ("outputs", "outputs", {})]
    return out


SINGLE = {"harvest": harvest, "emulate": lambda sx: emu(sx, 0), "emulate_io": emulate, "programming": programming, "modify": modify}


def give(sx, m, via, minimal=None):
    if via == "model":
        return m
    p = m.to_file(sx.tmpdir() / "task.yaml", minimal=sx.flag("minimal") if minimal is None else minimal)
    return p if via == "path" else str(p)


def single(sx, name, via):
    from shepherd_core.data_models.task import extract_tasks, prepare_task
    m = SINGLE[name](sx)
    obs = sx.choice("obs", [None, "obs1"])
    w = prepare_task(give(sx, m, via), obs)
    sx.check("type kept", w.datatype == type(m).__name__)
    got = extract_tasks(w, no_task_sets=sx.flag("no_sets"))
    sx.check("one task", isinstance(got, list) and len(got) == 1)
    same(sx, name, m, got[0])


def emu(sx, n):
    from shepherd_core.data_models.task import EmulationTask
    return EmulationTask(input_path=Path("/tmp/in.h5"), output_path=Path(f"/tmp/out{n}.h5"), duration=sx.td(f"dur{n}", 1, 10**6),
                         time_start=sx.now() + sx.td(f"start{n}", 60, 10**6), enable_io=sx.bool(f"io{n}"))


def mod(sx, n):
    from shepherd_core.data_models.task import FirmwareModTask
    return FirmwareModTask(data=Path(f"/tmp/{n}.elf"), data_type="path_elf", firmware_file=Path("/tmp/out.elf"), custom_id=sx.int(f"id{n}", 0, 65535))


def prog(sx, n):
    from shepherd_core.data_models.task import ProgrammingTask
    return ProgrammingTask(firmware_file=Path(f"/tmp/{n}.hex"), mcu_type="nrf52", protocol="SWD", voltage=sx.real(f"v{n}", 1, 5),
                           mcu_port=sx.int(f"mcu{n}", 1, 2))


def obs_tasks(sx, i, full):
    """tasks of observer i, all or any combination"""
    from shepherd_core.data_models.task import ObserverTasks
    made = {}
    for k in ORDER:
        if full or sx.flag(f"has_{k}_{i}"):
            made[k] = {"m": mod, "p": prog, "e": emu}[k[4] if k[0] == "f" else "e"](sx, f"{i}{k}")
    return ObserverTasks(observer=NAMES[i], owner_id=sx.int(f"owner{i}", 0, 2**64), time_prep=sx.now() - sx.td(f"prep{i}", 0, 10**6),
                         root_path=Path(f"/var/{i}"), abort_on_error=sx.bool(f"abort{i}"), **made), [made[k] for k in ORDER if k in made]


def tasks_equal(sx, got, want):
    sx.check("number of tasks", isinstance(got, list) and len(got) == len(want))
    for i, (a, b) in enumerate(zip(want, got)):
        same(sx, f"task{i}", a, b)


def observer(sx, via):
    from shepherd_core.data_models.task import extract_tasks, prepare_task
    o, want = obs_tasks(sx, 0, False)
    sel = sx.choice("sel", [None, "obs1", "other"])
    w = prepare_task(give(sx, o, via), sel)
    sx.check("type kept", w.datatype == "ObserverTasks")
    tasks_equal(sx, extract_tasks(w, no_task_sets=sel is None), want)
    tasks_equal(sx, o.get_tasks(), want)


def task_set(sx, n, via):
    from shepherd_core.data_models.task import ObserverTasks, TestbedTasks, extract_tasks, prepare_task
    made = [obs_tasks(sx, i, i != (0 if via == "path" else 1) or n == 3) for i in range(n)]
    t = TestbedTasks(name="tbt", observer_tasks=[m[0] for m in made], email_results=sx.bool("mail"), owner_id=sx.int("owner", 0, 2**64))
    cfg = give(sx, t, via, n != 2)
    k = sx.choice("sel", list(range(4)))
    sel = (*NAMES[:n], "obs", "OBS1", "obs100")[k]
    ok, w = sx.attempt(lambda: prepare_task(cfg, sel), ValueError)
    sx.check("only known observers", ok == (k < n))
    if not ok or k >= n:
        return
    sx.check("tasks of one observer", w.datatype == "ObserverTasks")
    same(sx, "set", made[k][0], ObserverTasks(**w.parameters))
    tasks_equal(sx, extract_tasks(w, no_task_sets=k % 2 == 0), made[k][1])


def whole(sx, via):
    """no selection: set stays as it is, and is only unpacked when asked for"""
    from shepherd_core.data_models.task import TestbedTasks, extract_tasks, prepare_task
    made = [obs_tasks(sx, i, True) for i in range(2)]
    t = TestbedTasks(name="tbt", observer_tasks=[m[0] for m in made], email_results=sx.bool("mail"), owner_id=sx.int("owner", 0, 2**64))
    w = prepare_task(give(sx, t, via))
    sx.check("type kept", w.datatype == "TestbedTasks")
    no = sx.flag("no_sets")
    how = [lambda: extract_tasks(w), lambda: extract_tasks(w, no_task_sets=True)][sx.flag("default")] if no else lambda: extract_tasks(w, no_task_sets=False)
    ok, got = sx.attempt(how, ValueError)
    sx.check("sets are refused by default", ok == (not no))
    if ok:
        tasks_equal(sx, got, [t])


def unknown(sx):
    """other models are no tasks"""
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.data_models.task import extract_tasks, prepare_task
    x = experiment(sx)
    w = prepare_task(give(sx, x, sx.choice("via", ["model", "path"])), sx.choice("obs", [None, "obs1"]))
    sx.check("type kept", w.datatype == "Experiment")
    ok, _ = sx.attempt(lambda: extract_tasks(w, no_task_sets=sx.flag("no_sets")), ValueError)
    sx.check("refused", not ok)
    for name in ("HarvestTas", "harvesttask", "", "Testbed"):
        ok, _ = sx.attempt(lambda name=name: extract_tasks(Wrapper(datatype=name, parameters={"output_path": "x"})), ValueError)
        sx.check("unknown type refused", not ok)


def odd_input(sx):
    from shepherd_core.data_models.task import prepare_task
    for x in (None, 3, {"datatype": "HarvestTask"}):
        ok, _ = sx.attempt(lambda x=x: prepare_task(x), TypeError)
        sx.check("refused", not ok)
    ok, _ = sx.attempt(lambda: prepare_task(sx.tmpdir() / "none.yaml"), FileNotFoundError)
    sx.check("missing file", not ok)


def outputs(sx):
    """result files: one per observer that emulates"""
    from shepherd_core.data_models.task import TestbedTasks
    made = [obs_tasks(sx, i, i != 1) for i in range(3)]
    t = TestbedTasks(name="tbt", observer_tasks=[m[0] for m in made], owner_id=sx.int("owner", 0, 2**64))
    want = {m[0].observer: m[0].emulation.output_path for m in made if m[0].emulation is not None}
    sx.check("result files", t.get_output_paths() == want)


_ = instant, modify_plain
