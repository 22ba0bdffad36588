"""Writes MANIFEST.json from properties.jsonl and the modules in props/"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
NA = {}
PY = "/opt/venv/bin/python"
TECH = "symbolic execution of the real TorchMPS code on a solver-backed torch tensor (every aten operation encoded exactly over the reals); z3 decides every branch and discharges each statement for all values within the stated sizes; counterexamples are replayed on the untouched code"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(f"{HERE}/props/{p}.py"):
        m = importlib.import_module("props." + p)
        note = "Bounded: holds for all values within these sizes only. " + "; ".join(f"{k}: {v}" for k, v in m.BOUNDS.items())
        if getattr(m, "ASSUMPTIONS", None):
            note += ". Assumes: " + "; ".join(m.ASSUMPTIONS)
        checks.append({
            "property": p,
            "quick_cmd": f"{PY} run.py {p} --tier quick",
            "thorough_cmd": f"{PY} run.py {p} --tier thorough",
            "technique": getattr(m, "TECHNIQUE", TECH),
            "level": "model_checking",
            "level_note": note,
            "evidence_file": f"evidence/{p}.json",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.dont_write_bytecode = True; import sx, torch, z3; print('ready', torch.__version__, z3.get_version_string())\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Everything runs from the committed Python files; nothing is built. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
