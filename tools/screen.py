#!/usr/bin/env python3
"""run checks against the edits of a spec file without confirming or keeping them: tools/screen.py SPEC [id[:Cnn]] ..."""
import os, runpy, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
import seed as S

spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = dict((a.split(":") + [None])[:2] for a in sys.argv[2:])
for s in spec:
    if want and s["id"] not in want:
        continue
    tmp = tempfile.mkdtemp(prefix="seed.")
    w = tmp + "/repo"
    try:
        S.sh(f"cp -a /repo {w}")
        for f, old, new in s["edits"]:
            t = open(f"{w}/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        for prop in (want.get(s["id"]) or s["property"]).split(","):
            t = time.time()
            r = S.inside(w, f"timeout 900 {S.PY} check.py {prop} --tier quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{s['id']} {prop} exit {r.returncode} {'violations ' + str(len(v)) if v else 'quiet'} {time.time() - t:.0f} s", flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-600:], r.stderr[-600:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
