"""Runs the checks of the planted changes against scratch copies: bugrun.py [--all-props] [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
d = tempfile.mkdtemp(prefix="bugrun.", dir="/tmp")
rep = d + "/repo"
subprocess.check_call(["cp", "-a", "/repo", rep])
try:
    for pid in sorted(os.listdir(ROOT + "/seeded")):
        if args and not any(pid.startswith(a) for a in args):
            continue
        p = f"{ROOT}/seeded/{pid}"
        subprocess.check_call("git checkout -q -- .; git apply " + p + "/patch.diff", shell=True, cwd=rep)
        prop = json.load(open(p + "/meta.json"))["property"]
        props = [prop] if "--all-props" not in sys.argv else [f"C{i:02d}" for i in range(1, 21) if os.path.exists(f"{ROOT}/props/C{i:02d}.py")]
        for q in props:
            t = time.time()
            r = subprocess.run([ROOT + "/run.py", q], cwd=ROOT, env=dict(os.environ, TORCHMPS_REPO=rep, VERIF_TOTAL="400", VERIF_EVIDENCE=d), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{pid:40s} {q} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'missed'} {len(v)} {time.time() - t:.0f}s", flush=True)
            if r.returncode not in (0, 1):
                print("   ", r.stdout[-400:], r.stderr[-300:])
finally:
    shutil.rmtree(d)
