"""Exploration of harness cases (instrumented worker) and replay (clean worker)."""
from __future__ import annotations

import importlib
import os
import random
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def base_env():
    os.environ.update({
        "TQDM_DISABLE": "1",
        "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PWNLIB_NOTERM": "1", "TZ": "UTC",
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    })
    sys.dont_write_bytecode = True
    cache = os.path.join(tempfile.gettempdir(), f"symx_cache_{os.getuid()}")
    os.makedirs(cache, exist_ok=True)
    os.environ["XDG_CACHE_HOME"] = cache
    os.environ["HOME"] = cache


def import_repo():
    base_env()
    time.tzset()
    for p in (f"{REPO}/shepherd_data", f"{REPO}/shepherd_core"):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import shepherd_core  # noqa: F401
    assert os.path.abspath(shepherd_core.__file__).startswith(REPO), shepherd_core.__file__


SEEN_FUNCS: set = set()


def trace_functions():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    def start(code, _off):
        fn = code.co_filename
        if fn.startswith(REPO):
            SEEN_FUNCS.add((fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


_mode = None


def init_worker(mode, prop):
    """mode 'sym': instrument the loaded code; 'con': leave it alone"""
    global _mode
    _mode = mode
    base_env()
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
    from . import rewrite
    rewrite.install(REPO, mode == "sym")
    import_repo()
    mod = importlib.import_module(f"props.{prop.lower()}")
    for name in getattr(mod, "MODULES", ()):
        importlib.import_module(name)
    if mode == "sym":
        trace_functions()
        from . import fakeh5, pyd, shims
        if getattr(mod, "FAKE_H5", True):
            import h5py
            shims.MODULE_SHIMS[h5py] = fakeh5.H5()
            pyd.FOREIGN = (fakeh5.File, fakeh5.Dataset, fakeh5.Group)
        if hasattr(mod, "extra_shims"):
            mod.extra_shims()
        shims.install()
        pyd.install(shims.target_modules())
        if getattr(mod, "TIME", False):
            from . import symtime
            symtime.install(shims.target_modules())
        if getattr(mod, "YAML", False):
            from . import yamlsim
            yamlsim.install(shims.target_modules())
        if hasattr(mod, "setup_sym"):
            mod.setup_sym()
    elif hasattr(mod, "setup_con"):
        mod.setup_con()


def _where(x):
    """innermost frame that is not engine code: ('repo'|'harness'|'other', text)"""
    frames = traceback.extract_tb(x.__traceback__)
    place = "other"
    for f in frames:
        if f.filename.startswith(REPO):
            place = "repo"
        elif f.filename.startswith(os.path.join(VERIF, "props")):
            place = "harness"
    last = next((f for f in reversed(frames)
                 if f.filename.startswith(REPO) or f.filename.startswith(VERIF + "/props")), None)
    txt = f"{os.path.basename(last.filename)}:{last.lineno}" if last else "?"
    return place, txt


def explore_case(prop, key, seed, tier, budget_s):
    """symbolically explore one case; returns a picklable summary"""
    from . import engine as E
    from . import fakeh5, pyd
    from .sx import HarnessGap, SymSX
    mod = importlib.import_module(f"props.{prop.lower()}")
    case = {c[0]: c for c in mod.cases(tier)}[key]
    _k, fname, kwargs = case[:3]
    opts = case[3] if len(case) > 3 else {}
    fn = getattr(mod, fname)
    eng = E.Engine(seed=seed, budget_s=opts.get("budget", budget_s),
                   max_paths=opts.get("max_paths", 20000), t_query=opts.get("t_query", 4000),
                   t_hard=opts.get("t_hard", 25000))
    eng.fpe = opts.get("fpe", False)
    eng.ovf = opts.get("ovf", False)
    E.CTX = eng
    res = {"key": key, "paths": [], "candidates": [], "unsupported": {}, "gaps": {},
           "budget_exceeded": False, "checks": 0, "covered": set(), "completed": 0,
           "dead": 0, "bound_aborts": 0}
    cap = opts.get("path_models", 60)
    rng = random.Random(seed)
    t0 = time.monotonic()
    npaths = 0
    while True:
        eng.pos = 0
        eng.fresh_n = 0
        eng.univ, eng.sums, eng.floors, eng.rounds = [], [], {}, {}
        eng.inputs = {}
        E._ph.clear()
        E.PH_VALUES.clear()
        pyd.TOKENS.clear()
        sx = SymSX(eng)
        fakeh5.reset()
        status = "ok"
        hits0 = eng.st["bound_hits"]
        try:
            fn(sx, **kwargs)
        except E.PathAbort:
            status = "abort"
            eng.st["aborted"] += 1
        except E.BudgetExceeded:
            res["budget_exceeded"] = True
            status = "budget"
        except E.Unsupported as x:
            status = "unsupported"
            w = f"{x} @ {_where(x)[1]}"
            res["unsupported"][w] = res["unsupported"].get(w, 0) + 1
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        except E.NonDeterminism as x:
            status = "unsupported"
            w = f"non-deterministic re-execution: {str(x)[:200]}"
            res["unsupported"][w] = res["unsupported"].get(w, 0) + 1
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        except HarnessGap as x:
            status = "gap"
            res["gaps"][str(x)] = res["gaps"].get(str(x), 0) + 1
        except Exception as x:
            status = "exception"
            place, txt = _where(x)
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            try:
                ms = eng.models_for(E.z3.BoolVal(True), first=None)
            except E.BudgetExceeded:
                ms = []
            lab = f"exception {type(x).__name__} at {txt}: {str(x)[:120]}"
            if ms:
                res["candidates"].append((lab, [sx.model_values(m) for m in ms]))
        finally:
            sx.cleanup()
        if eng.st["bound_hits"] > hits0:
            res["bound_aborts"] += 1
        res["checks"] += sx.n_checks
        res["covered"] |= sx.covered
        for c in sx.candidates:
            res["candidates"].append(c)
        if status in ("ok", "exception", "unsupported"):
            npaths += 1
            eng.st["paths"] += 1
            if status == "ok":
                res["completed"] += 1
            take = len(res["paths"]) < cap or rng.random() < cap / npaths
            if take and eng.pos == len(eng.trail):
                try:
                    m = eng.ensure_model()
                except (E.PathAbort, E.BudgetExceeded):
                    m = None
                if m is not None:
                    try:
                        rec = {"values": sx.model_values(m), "obs": sx.eval_obs(m)
                               if status == "ok" else None, "status": status}
                    except Exception as x:
                        rec = None
                        eng.note(f"model extraction: {x}")
                    if rec is not None:
                        if len(res["paths"]) < cap:
                            res["paths"].append(rec)
                        else:
                            res["paths"][rng.randrange(cap)] = rec
        if status == "budget" or time.monotonic() > eng.deadline:
            res["budget_exceeded"] = True
            break
        if npaths >= eng.max_paths:
            res["budget_exceeded"] = True
            eng.note("max_paths reached")
            break
        if len(res["candidates"]) > 40:
            eng.note("stopped after 40 counterexample candidates")
            break
        # decisions recorded beyond the point reached belong to another path
        if not eng.backtrack():
            break
    res["st"] = eng.st
    res["notes"] = eng.notes
    res["wall"] = time.monotonic() - t0
    res["funcs"] = set(SEEN_FUNCS)
    E.CTX = None
    return res


def replay_case(prop, key, tier, values, seed=1):
    """run the harness on the untouched code with concrete inputs"""
    from .sx import Abort, ConSX, HarnessGap
    mod = importlib.import_module(f"props.{prop.lower()}")
    case = {c[0]: c for c in mod.cases(tier)}[key]
    _k, fname, kwargs = case[:3]
    fn = getattr(mod, fname)
    sx = ConSX(values, seed)
    out = {"failures": [], "aborted": False, "gap": None, "obs": [], "checks": 0}
    cwd = os.getcwd()
    try:
        fn(sx, **kwargs)
    except Abort:
        out["aborted"] = True
    except HarnessGap as x:
        out["gap"] = str(x)
    except Exception as x:
        place, txt = _where(x)
        last = traceback.extract_tb(x.__traceback__)[-1]
        if last.filename.startswith(VERIF) and isinstance(x, (AttributeError, NameError, ImportError)):
            out["gap"] = f"{type(x).__name__}: {x} at {txt}"
        else:
            out["failures"].append((f"exception {type(x).__name__} at {txt}: {str(x)[:150]}",
                                    traceback.format_exc()[-1500:]))
    except SystemExit as x:
        out["failures"].append((f"SystemExit {x.code}", None))
    finally:
        sx.cleanup()
        os.chdir(cwd)
    out["failures"] += sx.failures
    out["obs"] = sx.obs
    out["checks"] = sx.n_checks
    return out
