#!/opt/venv/bin/python
"""Check one property:  run.py <ID> [--replay FILE] [--config NAME]"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
EVID = os.environ.get("VERIF_EVIDENCE")
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = EVID or os.path.join(HERE, "evidence")
REPO = os.environ.get("TORCHMPS_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import importlib
import json
import multiprocessing as mp
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
import sx
import torch
import z3

torch.set_num_threads(1)
from sx import explore, loader, solve, symt, term

loader.install()

MODS = {}


def load_prop(pid):
    return importlib.import_module("props." + pid)


class Tracer:
    """Which functions of the repository were executed symbolically"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        self.ok = False
        try:
            m.use_tool_id(3, "verif")
            self.ok = True
        except ValueError:
            return self

        def start(code, off):
            f = code.co_filename
            if f.startswith(REPO) and "/torchmps/" in f:
                self.seen.add(os.path.basename(f) + ":" + code.co_qualname)
            return m.DISABLE

        m.register_callback(3, m.events.PY_START, start)
        m.set_events(3, m.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.ok:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)


BASE = 0


def vmsize():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * os.sysconf("SC_PAGE_SIZE")


def work(conf, seed, conn):
    import resource

    lim = int(conf.get("mem_gb", 3.5) * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim + BASE, lim + BASE))
    out = {"name": conf["name"]}
    t0 = time.time()
    try:
        with Tracer() as tr:
            r = explore.Runner(
                conf["fn"],
                conf.get("cfg", {}),
                conf["name"],
                seed,
                conf.get("budget", 120),
                conf.get("max_paths", 64),
            ).run()
        out.update(
            paths=r.paths,
            proved=r.proved,
            incon=r.incon,
            stats=r.stats,
            validated=r.validated,
            samples=r.samples,
            obl=r.obl,
            domain=sorted(r.domain),
            assumed=r.assumed,
            vac=r.vac,
            cexs=[
                {"label": c.label, "env": c.env, "note": c.note} for c in r.cexs
            ],
            funcs=sorted(tr.seen),
            solver=solve.STATS.dump(),
            ops=sum(symt.COUNTS.values()),
            opkinds=len(symt.COUNTS),
        )
        if r.paths and not r.proved and not r.stats.get("raises") and not r.cexs and not r.incon:
            out["incon"] = ["no statement was reached"]
    except BaseException as e:
        out["incon"] = [f"{type(e).__name__}: {e} " + traceback.format_exc()[-900:]]
    out["wall"] = round(time.time() - t0, 2)
    conn.send(out)
    conn.close()


def warm():
    """Load what torch imports lazily once, before forking"""

    def h(ctx):
        x = ctx.real("warm", (2, 2))
        ctx.eq("warm", x.t @ x.t, symt.matmul2(x.a, x.a))

    explore.Runner(h, {}, "warm", 1, 60, 4).run()
    global BASE
    BASE = vmsize()
    solve.STATS = solve.Stats()
    symt.COUNTS.clear()


def run_all(confs, seed, jobs, deadline, bad=lambda r: False):
    ctx = mp.get_context("fork")
    todo = list(confs)
    # longest first
    todo.sort(key=lambda c: -c.get("cost", 1))
    live, results, picked, hits, first = [], [], 0, 0, None
    while todo or live:
        # confirmed violations settle the verdict: no need to explore the rest
        if hits >= 6 or (hits and time.time() - first > 15):
            for p, a, c, t0 in live:
                p.kill()
                p.join()
            break
        while todo and len(live) < jobs:
            picked += 1
            c = todo.pop(-1 if picked % 4 == 0 else 0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, seed, b))
            p.start()
            b.close()
            live.append((p, a, c, time.time()))
        still = []
        for p, a, c, t0 in live:
            if a.poll(0):
                try:
                    results.append(a.recv())
                    if bad(results[-1]):
                        hits += 1
                        first = first or time.time()
                except EOFError:
                    results.append({"name": c["name"], "incon": ["worker died"]})
                p.join(5)
                continue
            if not p.is_alive():
                results.append({"name": c["name"], "incon": [f"worker died ({p.exitcode})"]})
                continue
            if time.time() - t0 > c.get("budget", 120) + 60 or time.time() > deadline:
                p.kill()
                p.join()
                results.append({"name": c["name"], "incon": ["timed out"]})
                continue
            still.append((p, a, c, t0))
        live = still
        time.sleep(0.01)
    return results


def load_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def find_conf(mod, name):
    for tier in ("quick", "thorough"):
        for c in mod.configs(tier):
            if c["name"] == name:
                return c
    raise SystemExit("no such config " + name)


def replay(path):
    d = json.load(open(path))
    mod = load_prop(d["property"])
    c = find_conf(mod, d["config"])
    env = explore.Env({}, d.get("seed", 0), d["env"])
    rc = 0
    for dt, tol in ((torch.float32, 2e-2), (torch.float64, 1e-5)):
        try:
            ctx = explore.run_native(c["fn"], c.get("cfg", {}), env, {}, dt, tol)
            print(dt, "violated:" if ctx.fails else "holds", ctx.fails[:3])
            rc |= bool(ctx.fails)
        except Exception as e:
            print(dt, "raised", type(e).__name__, e)
            rc = 1
    return rc


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = load_prop(pid)
    confs = mod.configs(tier)
    if "--config" in argv:
        pat = argv[argv.index("--config") + 1]
        confs = [c for c in confs if any(x in c["name"] for x in pat.split("|"))]
    names = [c["name"] for c in confs]
    assert len(set(names)) == len(names), "duplicate config names"
    warm()
    total = int(os.environ.get("VERIF_TOTAL", 800 if tier == "thorough" else 600))
    known = [f for f in load_findings() if f["property"] == pid and f.get("status") == "known"]
    listed = {(f["config"], f["label"]) for f in known}
    bad = lambda r: any((r["name"], c["label"]) not in listed for c in r.get("cexs", []))
    res = run_all(confs, seed, int(os.environ.get("VERIF_JOBS", "8")), t0 + total, bad)
    res.sort(key=lambda r: names.index(r["name"]))
    viol, incon, knownhit = [], [], set()
    for r in res:
        for c in r.get("cexs", []):
            hit = None
            for f in known:
                if f["config"] == r["name"] and f["label"] == c["label"]:
                    hit = f
            if hit:
                knownhit.add(hit["key"])
                continue
            viol.append((r["name"], c))
        if r.get("incon"):
            incon.append((r["name"], r["incon"]))
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in known:
        if f["key"] in knownhit:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    lines = []
    for i, (cn, c) in enumerate(viol):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        json.dump(
            {"property": pid, "config": cn, "label": c["label"], "note": c["note"], "seed": seed, "env": c["env"]},
            open(path, "w"),
            indent=1,
        )
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"# {cn}: {c['label']}: {c['note']}")
    for cn, why in incon:
        for w in why[:3]:
            print(f"INCONCLUSIVE {cn}: {w}"[:1200])
    sol = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0}
    by = {}
    funcs, assumed, samples, domain, obl = set(), [], [], set(), {}
    for r in res:
        for k in sol:
            sol[k] += r.get("solver", {}).get(k, 0)
        for k, v in r.get("solver", {}).get("by", {}).items():
            by[k] = by.get(k, 0) + v
        funcs |= set(r.get("funcs", []))
        samples += r.get("samples", [])[:1]
        domain |= set(r.get("domain", []))
        for k, v in r.get("obl", {}).items():
            obl[k] = obl.get(k, 0) + v
        for a in r.get("assumed", [])[:2]:
            if a not in assumed:
                assumed.append(a)
    sol["solver_s"] = round(sol["solver_s"], 2)
    paths = sum(r.get("paths", 0) for r in res)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": "bounded symbolic execution of the real TorchMPS code; every statement is discharged by z3 for all real values of the inputs and parameters, within the stated sizes",
            "configurations": len(res),
            "stopped_at_violation": len(res) < len(confs),
            "states": paths,
            "transitions": sum(r.get("ops", 0) for r in res),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in res),
            "statements_proved": sum(r.get("proved", 0) for r in res),
            "queries": sol["queries"],
            "unsat": sol["unsat"],
            "sat": sol["sat"],
            "unknown": sol["unknown"],
            "solver_s": sol["solver_s"],
            "queries_by_kind": by,
            "obligations_by_kind": obl,
            "undecided": [n for n, _ in incon],
            "domain_obligations_assumed": sorted(domain),
            "functions_encoded": sorted(funcs),
            "bounds": mod.BOUNDS,
            "configs": [
                {
                    "name": r["name"],
                    "paths": r.get("paths"),
                    "proved": r.get("proved"),
                    "wall_s": r.get("wall"),
                    "vacuity": r.get("vac"),
                    "torch_ops": r.get("ops"),
                }
                for r in res
            ],
            "samples": samples[:8] or [r["name"] for r in res][:3],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ["per-path: " + a for a in assumed[:12]],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    print(
        f"{pid} [{tier}] configs={len(res)} paths={paths} proved={ev['coverage']['statements_proved']} "
        f"queries={sol['queries']} solver_s={sol['solver_s']} validated={ev['coverage']['traces_validated_against_impl']} "
        f"violations={len(viol)} inconclusive={len(incon)} wall={ev['wall_s']}"
    )
    if "--times" in argv:
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:12]:
            print("  ", r["name"], r.get("wall"), "paths", r.get("paths"))
    if viol:
        for l in lines[:8]:
            print(l)
        return 1
    # a configuration the solver could not decide within its budget is reported and
    # listed in the evidence as undecided; too many of them mean there is no verdict
    if len(incon) * 4 > len(res):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
