#!/bin/bash
# tools/seedcheck.sh NAME...: confirms planted changes (builds, passes the tests, demo fails with it and passes without it)
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/sc.build 2>&1 || { echo base build failed; exit 2; }
for n in "$@"; do
  cp -r seeded/$n /tmp/sc.$n
  (cd /repo && timeout 300 bash /tmp/sc.$n/demo.sh >/tmp/sc.out 2>&1) && a=ok || { a=BAD; tail -5 /tmp/sc.out; }
  rm -rf /tmp/sc.$n
  echo "$n unchanged: $a"
done
for n in "$@"; do
  git -C /repo apply $PWD/seeded/$n/patch.diff || { echo "$n DOES NOT APPLY"; continue; }
  if bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.build 2>&1; then
    python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc.json'))['passed'])
print("  tests", "ok" if b<=p else "BAD %s"%(b-p))
P
    cp -r seeded/$n /tmp/sc.$n
    (cd /repo && timeout 300 bash /tmp/sc.$n/demo.sh >/tmp/sc.out 2>&1) && a="BAD passes" || a="fails as wanted: $(tail -1 /tmp/sc.out | cut -c1-150)"
    rm -rf /tmp/sc.$n
    echo "$n patched: $a"
  else echo "$n BUILD FAILED"; grep -m3 error: /tmp/sc.build; fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/sc.build 2>&1
