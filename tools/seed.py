#!/usr/bin/env python3
"""plant bugs: python3 tools/seed.py SPEC.py [id ...]

SPEC.py holds SEEDS, a list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
Each is confirmed in a scratch copy (demo quiet without and failing with the change, stable tests pass) and
kept under seeded/<id>; then the property's check runs against it, with the changed copy mounted in the place of /repo in a
private mount namespace, so that /repo itself is never touched.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

V = os.environ.get("MACHINERY", "/verif")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, timeout=1200):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def tests(w):
    import xml.etree.ElementTree as ET

    shutil.rmtree(w + "/snapshots/test", ignore_errors=True)
    a = sh(f"{PY} -m pytest -q -p no:cacheprovider -x --junitxml={w}/../s.xml -o junit_family=xunit2 tests/test_save_load.py", w)
    b = sh(f"{PY} -m pytest -q -p no:cacheprovider --junitxml={w}/../p.xml -o junit_family=xunit2 -n 4 --dist worksteal --ignore=tests/test_save_load.py tests", w)
    ok = set()
    for f in (f"{w}/../s.xml", f"{w}/../p.xml"):
        for c in ET.parse(f).getroot().iter("testcase"):
            if not any(k.tag in ("failure", "error", "skipped") for k in c):
                ok.add(f"{c.get('classname')}::{c.get('name')}")
    return sorted(STABLE - ok)


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    for s in spec:
        if want and s["id"] not in want:
            continue
        d = f"{V}/seeded/{s['id']}"
        if os.path.exists(d + "/meta.json") and not want:
            continue
        tmp = tempfile.mkdtemp(prefix="seed.")
        w = tmp + "/repo"
        try:
            sh(f"cp -a /repo {w}")
            for f, old, new in s["edits"]:
                t = open(f"{w}/{f}").read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(f"{w}/{f}", "w").write(t.replace(old, new))
            diff = sh("git diff", w).stdout
            stage = tmp + "/stage"
            os.makedirs(stage)
            open(stage + "/demo.py", "w").write(s["demo"])
            open(stage + "/demo.sh", "w").write('#!/bin/bash\nset -e\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            clean = sh(f"bash {stage}/demo.sh", "/repo", 300)
            bad = sh(f"bash {stage}/demo.sh", w, 300)
            if clean.returncode or not bad.returncode:
                print(s["id"], "DEMO WRONG clean", clean.returncode, clean.stderr[-600:], "patched", bad.returncode)
                continue
            miss = tests(w)
            if miss:
                print(s["id"], "TESTS CATCH IT", len(miss), miss[:3])
                continue
            os.makedirs(d, exist_ok=True)
            for n in ("demo.py", "demo.sh"):
                shutil.copy(f"{stage}/{n}", d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            print(s["id"], "kept;", "demo:", bad.stderr.strip().splitlines()[-1:] or bad.stdout.strip()[-100:], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        run(s["id"], s["property"])


def inside(w, cmd, timeout=1500):
    """run cmd with the scratch copy w in the place of /repo (a private mount namespace) and scratch outputs"""
    out = tempfile.mkdtemp(prefix="seedout.")
    try:
        return sh(f"unshare -m bash -c 'mount --bind {w} /repo && mount --bind {out} {V}/evidence && mount --bind {out} {V}/replays && cd {V} && {cmd}'", timeout=timeout)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run(sid, prop):
    if not os.path.exists(f"{V}/props/{prop.lower()}.py"):
        print(sid, prop, "no check yet")
        return
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        w = tmp + "/repo"
        sh(f"cp -a /repo {w}")
        assert sh(f"git apply {V}/seeded/{sid}/patch.diff", w).returncode == 0, sid
        import time

        t = time.time()
        r = inside(w, f"timeout 900 {PY} check.py {prop} --tier quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{sid} {prop} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time() - t:.0f} s", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--run":
        for sid in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            run(sid, json.load(open(f"{V}/seeded/{sid}/meta.json"))["property"])
    else:
        main()
