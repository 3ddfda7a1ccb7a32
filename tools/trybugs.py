#!/usr/bin/env python3
"""trybugs.py [ID...]: runs the check of each planted bug's property on a scratch copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
import concurrent.futures as cf
def one(i):
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json")); w = tempfile.mkdtemp(prefix="try.")
    try:
        subprocess.run("cp -a /repo %s/repo && git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff" % (w, w, w, d), shell=True, check=True)
        t = time.time()
        r = subprocess.run(["timeout", "900", "python3", "check.py", m["property"]], cwd=V, env=dict(os.environ, BIGFILE_REPO=w + "/repo", BIGFILE_EVIDENCE=w + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-7s %s %s exit %d %.0fs %s" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", i, m["property"], r.returncode, time.time() - t, r.stdout.strip().splitlines()[-2:] ), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
for i in ids: one(i)
