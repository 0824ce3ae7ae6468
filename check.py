#!/opt/venv/bin/python
"""check.py Cnn [--tier quick|thorough] [--only SUBSTR]   |   check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
os.environ.update(MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    from symx import runner

    if a.replay:
        d = json.load(open(a.replay))
        env = d["env"]
        r = runner.run_job(
            runner.concrete_run,
            (f"props.{d['property'].lower()}", d["harness"], d["config"], env, d.get("seed") or 0, d.get("fill")),
        )
        print(json.dumps({k: r.get(k) for k in ("failures", "raised", "error")}, indent=1, default=str))
        return 1 if r.get("failures") or r.get("raised") else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = f"props.{a.prop.lower()}"
    # the property module only declares harnesses; it must not import fvhoe at module level
    mod = importlib.import_module(modname)
    tasks = mod.tasks(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t.name()]
    limit = mod.META.get("wall_" + a.tier, 600 if a.tier == "quick" else 3000)
    return runner.run_property(a.prop, modname, tasks, a.tier, seed, mod.META, limit, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
