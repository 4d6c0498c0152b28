"""mkseed.py <spec.py>: spec defines SEEDS = {id: dict(property, file, old, new | edits=[(file, old, new)], needs, breaks, demo)}
writes seeded/<id>/{patch.diff,meta.json,demo.sh,demo.py}"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for i, s in ns["SEEDS"].items():
    if len(sys.argv) > 2 and i not in sys.argv[2:]:
        continue
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, o, n in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        p = f"{w}/r/{f}"
        t = open(p).read()
        assert t.count(o) == 1, (i, f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PWNLIB_NOTERM=1\n'
        'here=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\nexport XDG_CACHE_HOME=$w/cache HOME=$w\nmkdir -p $w/cache $w/run\n'
        'cp "$here/demo.py" $w/run/demo.py\n(cd $w/run && /opt/venv/bin/python demo.py)\nrc=$?\nrm -rf "$w"\nexit $rc\n')
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    shutil.rmtree(w)
    print(i)
