#!/usr/bin/env python3
"""Behaviour-preserving edits: the checks must stay quiet (exit 0, nothing inconclusive) on each.
usage: refac.py [-t] SPEC.py [name-substring]   (-t also runs the repository's tests on the edited copy)
SPEC.py defines  E = [(name, file, [(old, new), ...], [property ids])]"""
import re, subprocess, sys, shutil, os, tempfile, pathlib
args = sys.argv[1:]
tests = "-t" in args
args = [a for a in args if a != "-t"]
ns = {}
exec(open(args[0]).read(), ns)
subs = args[1:] or [""]
CORE, DATA = "shepherd_core/shepherd_core/", "shepherd_data/shepherd_data/"
for name, file, edits, props in ns["E"]:
    if not any(x in name for x in subs):
        continue
    d = tempfile.mkdtemp(prefix="refac_")
    try:
        for s in ("shepherd_core", "shepherd_data"):
            shutil.copytree(os.environ.get("REFAC_BASE", "/repo") + "/" + s, d + "/" + s, symlinks=True)
        p = pathlib.Path(d, file)
        s = p.read_text()
        for old, new in edits:
            assert s.count(old) >= 1, f"{name}: not found: {old[:60]!r}"
            s = s.replace(old, new)
        p.write_text(s)
        compile(s, file, "exec")
        for pid in props:
            r = subprocess.run(["/verif/check.py", pid], capture_output=True, text=True,
                               env={**os.environ, "SYMX_REPO": d, "SYMX_NOEV": "1"})
            out = r.stdout + r.stderr
            n = str(out.count("INCONCLUSIVE"))
            flag = "" if r.returncode == 0 and n == "0" else "  <<<<<"
            print(f"{name:32} {pid} exit {r.returncode} inconclusive {n}{flag}", flush=True)
            if flag:
                for l in sorted(set(re.findall(r"(?:violated: .*|INCON.*|.*Error.*)", out)))[:3]:
                    print("      ", l[:220], flush=True)
    finally:
        shutil.rmtree(d)
