#!/bin/bash
# Development aid (not a check): validates a planted bug in a private copy of the repository.
# usage: seedtest.sh SEEDDIR [nobase]     needs mount namespaces (unshare -m); never touches the real /repo
S=$(readlink -f "$1"); SR=${SR:-/tmp/sr}
mkdir -p $SR; [ -d $SR/.git ] || cp -a /repo/. $SR/
exec unshare -m bash -c '
mount --bind '$SR' /repo || exit 9
cd /repo; git checkout -q -- . 
if [ "'$2'" != nobase ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BASE-BUILD-FAIL; exit 1; }
  timeout 300 bash '$S'/demo.sh >/tmp/seed.demo0 2>&1; echo "demo on base: $? (want 0)"
fi
git apply '$S'/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD-FAIL; grep -m3 error /tmp/seed.build; git checkout -q -- .; exit 1; }
timeout 600 bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b.get("passed") or b.get("stable") or b
r=set(json.load(open("/tmp/seed.json"))["passed"])
m=[t for t in b if t not in r]
print("tests missing vs baseline:", len(m), m[:5])
P
timeout 300 bash '$S'/demo.sh >/tmp/seed.demo1 2>&1; echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/seed.demo1
git checkout -q -- .
'
