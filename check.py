#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: builds /repo's working tree and explores one property."""
import sys, os, subprocess, tempfile, shutil, json, time, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("BIGFILE_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "mc"))
import registry

def main():
    pid = sys.argv[1]; args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = os.path.abspath(args.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="bfv-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        rc, cov, assumptions = registry.run(pid, REPO, HERE, work, tier, replay)
    finally:
        subprocess.call(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)
    if replay: return rc
    ev = dict(property=pid, tier=tier, seed=seed, level=registry.CHECKS[pid]["level"], coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    return rc
if __name__ == "__main__": sys.exit(main())
