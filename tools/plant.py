"""Write seeded/<id>/ from a list of edits:  plant(id, property, file, old,
new, needs, breaks, demo)."""
import json
import os
import shutil
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def plant(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    W = "/tmp/plantcopy"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for file, old, new in edits:
        p = os.path.join(W, file)
        s = open(p).read()
        assert s.count(old) == 1, (id, file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=W, check=True, text=True,
                          stdout=subprocess.PIPE).stdout
    shutil.rmtree(W)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    shutil.copy(os.path.join(V, "tools/demo/simdata.py"), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
