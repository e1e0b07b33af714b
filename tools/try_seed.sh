#!/bin/bash
# tools/try_seed.sh ID [CHECK...]: confirms a planted bug (demo passes clean, patch applies, builds, stable tests pass, demo fails) and runs checks against it.
s=/verif/seeded/$1; id=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
cd /repo
if [ -z "$SKIP" ]; then
  timeout 300 bash "$s/demo.sh" >/tmp/demo.clean 2>&1 || { echo "$id: demo fails on clean tree"; tail -5 /tmp/demo.clean; exit 1; }
fi
git apply "$s/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$id: does not build"; tail -20 /tmp/build.out; exit 1; }
  timeout 300 bash "$s/demo.sh" >/tmp/demo.bug 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
  tail -2 /tmp/demo.bug
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
stable=b.get('stable') or b.get('stable_passed') or b.get('passed')
ok=set(r.get('passed',[]))
miss=[t for t in stable if t not in ok]
print('stable tests failing:',len(miss),miss[:3])
P
fi
for c in "$@"; do
  timeout 900 /verif/bin/check $c quick >/tmp/seed.$id.$c 2>&1; echo "$id $c -> $? $(grep -c '^VIOLATION' /tmp/seed.$id.$c)"
done
