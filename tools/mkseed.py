#!/usr/bin/env python3
"""Makes and validates planted bugs:  mkseed.py FILE.py [ID...]   (FILE defines SEEDS)
   Each seed: dict(id, property, edits=[(file, old, new)], demo=C text | files={name:text}, sh=demo.sh text or None, needs, breaks).
   In a scratch copy of /repo: apply, write patch.diff, demo on the unchanged copy (0), build, stable tests, demo on the changed one (!=0)."""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C_SH = '''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -O1 -g %s -I src -o "$t/demo" "$d/demo.c" src/bigfile.c src/bigfile-record.c -lm || exit 0
cd "$t" && timeout 100 ./demo
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if want and s["id"] not in want: continue
        w = tempfile.mkdtemp(prefix="seed."); r = w + "/repo"
        try:
            # tests and build scripts work on /repo: use them with the change applied there, like vcheck does
            sh("git -C /repo checkout -- . && git clone -q /repo " + r, "/")
            for f, old, new in s["edits"]:
                t = open(r + "/" + f).read()
                if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), repr(old[:60])); raise SystemExit(1)
                open(r + "/" + f, "w").write(t.replace(old, new))
            diff = sh("git diff", r).stdout
            base_commit = "243c11e"
            for f, old, new in s["edits"]: pass
            d = HERE + "/seeded/" + s["id"]
            if os.path.isdir(d): shutil.rmtree(d)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            for n, txt in s.get("files", {}).items(): open(d + "/" + n, "w").write(txt)
            if "demo" in s: open(d + "/demo.c", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(s.get("sh") or C_SH % s.get("cflags", ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            # removed lines must be original
            bl = {}
            for f, old, new in s["edits"]:
                b = sh("git blame -s -l %s" % f, "/repo").stdout.splitlines()
                import difflib
                o = open("/repo/" + f).read().splitlines(); n = open(r + "/" + f).read().splitlines()
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, o, n, False).get_opcodes():
                    if tag in ("replace", "delete"):
                        bad = [l for l in b[i1:i2] if not l.lstrip("^").startswith("243c11e") and l.split(")", 1)[1].strip()]
                        if bad: print(s["id"], "NOT ORIGINAL:", bad[:2])
            ok0 = sh("bash " + d + "/demo.sh", "/repo", timeout=300)
            try:
                a = sh("git apply " + d + "/patch.diff", "/repo")
                if a.returncode: print(s["id"], "APPLY", a.stdout)
                b = sh("bash /opt/vp/build.sh", "/repo")
                if b.returncode: print(s["id"], "BUILD FAILED", b.stdout[-2000:])
                sh("bash /opt/vp/test.sh /tmp/seed.json", "/repo")
                res = json.load(open("/tmp/seed.json"))
                missing = [x for x in base["stable"] if x not in res["passed"]]
                ok1 = sh("bash " + d + "/demo.sh", "/repo", timeout=300)
            finally:
                sh("git checkout -- . && bash /opt/vp/build.sh", "/repo")
            good = ok0.returncode == 0 and ok1.returncode != 0 and not missing
            print("%s %s: demo %d -> %d, tests lost %s" % ("OK " if good else "BAD", s["id"], ok0.returncode, ok1.returncode, missing), flush=True)
            if not good: print(ok0.stdout[-800:], "----", ok1.stdout[-800:])
            else: print("     ", ok1.stdout.strip().splitlines()[-1:] )
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
