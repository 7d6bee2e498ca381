#!/usr/bin/env python3
"""Plant one bug: python3 tools/plant.py SPEC.py  (development tool, no check reads it).

SPEC defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python source).
Confirms it in /repo (applied and undone): builds, stable tests pass, demo 0 / nonzero, check result."""
import json
import pathlib
import runpy
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
HEAD = '''import os, sys, tempfile, warnings, logging
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.getcwd())
import numpy as np
logging.disable(logging.CRITICAL)


def need(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def undo():
    subprocess.check_call(["git", "-C", str(REPO), "checkout", "-q", "--", "."])
    sh("bash /opt/vp/build.sh")


def main():
    spec = runpy.run_path(sys.argv[1])
    d = VERIF / "seeded" / spec["ID"]
    d.mkdir(parents=True, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    (d / "demo.py").write_text(HEAD + spec["DEMO"].strip() + '\nprint("ok")\n')
    (d / "demo.sh").write_text('#!/bin/bash\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
                               'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n'
                               'exec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(
        {"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    print("demo clean:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    ok = r.returncode == 0
    try:
        for f, old, new in spec["EDITS"]:
            p = REPO / f
            s = p.read_text()
            assert s.count(old) == 1, (f, s.count(old), old)
            p.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        print("build:", b.returncode, b.stderr[-300:])
        ok &= b.returncode == 0
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        print("tests:", t.stdout.strip().splitlines()[-1:])
        ok &= "5 passed, 0 failed" in t.stdout
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        print("demo patched:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok &= r.returncode != 0
        c = sh(f"VERIF_SEED=1 ./check {spec['PROP']}", cwd=VERIF)
        print("check:", c.returncode, (c.stdout + c.stderr)[-500:].strip())
    finally:
        undo()
    print("VALID" if ok else "INVALID", "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED", spec["ID"])


if __name__ == "__main__":
    main()
