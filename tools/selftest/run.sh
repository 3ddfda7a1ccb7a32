#!/bin/sh
# compares the reduced with the full exploration of small programs: the numbers of distinct outcomes must agree
d=$(mktemp -d /dev/shm/bfself.XXXX); h=$(cd "$(dirname "$0")/../.." && pwd)
g++ -std=gnu++17 -O1 -g -w -I$h/mc -I/repo/src -o $d/t $h/tools/selftest/dpor.cc $h/mc/mc.cc $h/mc/coro.cc $h/mc/mcfs.cc -ldl || exit 1
for f in 0 1; do $d/t --out $d/o$f --full $f --budget 800 2>&1 | tail -1; done
python3 - $d <<'P'
import json,sys
a,b=[json.load(open(sys.argv[1]+"/o%d"%i)) for i in (0,1)]
print("reduced", a["executions"], "full", b["executions"], "outcomes", a["states"], b["states"]); sys.exit(0 if a["states"]==b["states"] else 1)
P
r=$?; rm -r $d; exit $r
