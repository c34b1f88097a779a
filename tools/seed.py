"""Confirm planted bugs:  python3 tools/seed.py ID...   (in a scratch copy)

For each: patch applies, stable tests pass with it, demo exits 0 without and
nonzero with it; then which checks report it.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedcopy"


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout,
                          env=dict(os.environ, **(env or {})),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def main(ids, full):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        m = json.load(open(os.path.join(d, "meta.json")))
        shutil.rmtree(W, ignore_errors=True)
        sh(f"cp -a /repo {W}")
        a = sh(f"bash {d}/demo.sh", cwd=W).returncode
        p = sh(f"git apply {d}/patch.diff", cwd=W)
        if p.returncode:
            print(i, "PATCH FAILS", p.stdout[:300])
            continue
        dem = sh(f"bash {d}/demo.sh", cwd=W)
        t = sh("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3",
               cwd=W, env={"PYTHONPATH": W, "MPLBACKEND": "agg"})
        tests = t.stdout.strip().splitlines()[-1:]
        line = f"{i} {m['property']} demo {a}->{dem.returncode} tests {tests}"
        props = [m["property"]]
        if full:
            props = [c["property"] for c in json.load(open(
                os.path.join(V, "MANIFEST.json")))["checks"]]
        hits = []
        for q in props:
            c = sh(f"python3 -m calkstatic.run {q} quick", cwd=V,
                   env={"CALK_REPO": W, "CALK_EVIDENCE": "/tmp/seedev"})
            if c.returncode == 1 and "VIOLATION" in c.stdout:
                hits.append(q)
            elif c.returncode:
                hits.append(q + "?")
        print(line, "CAUGHT" if m["property"] in hits else "MISSED", hits,
              flush=True)
        if a or not dem.returncode:
            print(dem.stdout[-400:])
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    ids = [x for x in sys.argv[1:] if not x.startswith("-")]
    main(ids or sorted(os.listdir(os.path.join(V, "seeded"))),
         "--full" in sys.argv)
