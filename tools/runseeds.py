#!/usr/bin/env python3
"""Runs the checks against each planted bug in a scratch copy of /repo. usage: runseeds.py [id-prefix ...] [--all]"""
import json, os, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in sorted(os.listdir(root + "/seeded")):
    if args and not any(i.startswith(a) for a in args): continue
    meta = json.load(open(f"{root}/seeded/{i}/meta.json"))
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    try:
        subprocess.check_call(["git", "apply", f"{root}/seeded/{i}/patch.diff"], cwd=w + "/repo")
        t = time.time()
        r = subprocess.run([root + "/check", meta["property"], "quick"], cwd=root, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo"))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        n = [l for l in (r.stdout + r.stderr).split("\n") if "NOTE" in l]
        print(f"{i:40s} {meta['property']} {'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f} s {n[:2] if r.returncode != 1 else ''}", flush=True)
    finally:
        shutil.rmtree(w)
