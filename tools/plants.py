"""Writes the planted changes under seeded/ and verifies them in a scratch copy of the repository.

plants.py [--write] [--verify] [ID ...]
Not used by any check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("PLANTS_DIR") or os.path.join(ROOT, "seeded")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant_list import PLANTS

HEAD = '''import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import torch
torch.manual_seed(0)
torch.set_num_threads(1)
def close(a, b, tol=1e-4):
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    return a.shape == b.shape and bool(torch.all(torch.abs(a - b) <= tol * (1 + torch.abs(b))))
def check(ok, what):
    if not ok:
        print("FAIL", what)
        sys.exit(1)
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d + "/repo"


def edit(rep, p):
    for f, old, new, *cnt in p["edits"]:
        path = f"{rep}/torchmps/{f}.py"
        s = open(path).read()
        n = s.count(old)
        which = cnt[0] if cnt else None
        if which is None:
            assert n == 1, (p["id"], f, old, n)
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            assert n > which, (p["id"], n)
            s = old.join(parts[: which + 1]) + new + old.join(parts[which + 1 :])
        open(path, "w").write(s)


def write(p, rep):
    sh("git checkout -q -- .", cwd=rep)
    edit(rep, p)
    diff = sh("git diff", cwd=rep).stdout
    assert diff
    d = f"{SEEDED}/{p['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(HEAD + p["demo"].strip("\n") + "\n")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", cwd=rep)


def verify(pid, rep):
    d = f"{SEEDED}/{pid}"
    sh("git checkout -q -- .", cwd=rep)
    a = sh(f"bash {d}/demo.sh", cwd=rep)
    r = sh(f"git apply {d}/patch.diff", cwd=rep)
    assert r.returncode == 0, r.stderr
    b = sh(f"bash {d}/demo.sh", cwd=rep)
    if a.returncode or not b.returncode:
        sh("git checkout -q -- .", cwd=rep)
        return f"BAD DEMO clean={a.returncode} patched={b.returncode} {a.stdout[-300:]} {a.stderr[-300:]}"
    t = sh(f"sed 's#/repo#{rep}#g' /opt/vp/test.sh > {rep}.test.sh; bash {rep}.test.sh {rep}.out.json")
    res = json.load(open(rep + ".out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    miss = [x for x in base if x not in passed]
    sh("git checkout -q -- .", cwd=rep)
    return ("BAD TESTS " + " ".join(miss)) if miss else "ok   patched: " + (b.stdout.strip() or b.stderr.strip().splitlines()[-1])[:150]


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    rep = scratch()
    try:
        for p in PLANTS:
            if args and not any(p["id"].startswith(a) for a in args):
                continue
            if "--write" in sys.argv:
                write(p, rep)
            if "--verify" in sys.argv and os.path.isdir(f"{SEEDED}/{p['id']}"):
                print(p["id"], verify(p["id"], rep), flush=True)
    finally:
        shutil.rmtree(os.path.dirname(rep))
