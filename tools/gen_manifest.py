"""writes /verif/MANIFEST.json from the harnesses present in props/"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
NA = {
    "C38": "the target current is defined through exp() and a logarithmic solver; the transcendental equation "
           "is not decidable by the SMT solver with the tolerances that matter",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/props/{i.lower()}.py"):
        cmd = f"/opt/venv/bin/python /verif/check.py {i}"
        checks.append({
            "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
            "technique": "symbolic execution of the real Python code (path forking, z3), assertions decided by "
                         "SMT over all values within bounds, counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": "bounded: every path within the stated bounds is decided by z3 over exact "
                          "integers/reals (floating point rounding is covered by tolerances and by replay); "
                          "trusts the engine's models of numpy/h5py/pydantic, which are checked on every run by "
                          "replaying path models on the real libraries"})
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/verif\"); "
           "from symx import runner; runner.import_repo(); import z3'",
           "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
