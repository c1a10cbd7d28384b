#!/bin/bash
# tryseed.sh <id> [check...]: applies a planted bug to /repo, runs the tests, the demonstration and checks, undoes it
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "/repo is changed"; exit 2; }
[ -n "$NODEMO" ] || { bash $d/demo.sh >/tmp/ts-clean.log 2>&1; echo "$id demo clean: $?"; }
git apply $d/patch.diff || exit 2
if [ -z "$NOTEST" ]; then
  if timeout 600 bash /opt/vp/build.sh >/tmp/ts-build.log 2>&1; then echo "$id builds"; else echo "$id DOES NOT BUILD"; tail -20 /tmp/ts-build.log; git checkout -- .; exit 1; fi
  timeout 600 bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts-test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); base=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests'))
o=set(json.load(open('/tmp/ts.json'))['passed'])
m=sorted(base-o); print("$id tests:", "all pass" if not m else "FAIL %d: %s" % (len(m), m[:3]))
P
fi
[ -n "$NODEMO" ] || { bash $d/demo.sh >/tmp/ts-bug.log 2>&1; echo "$id demo patched: $?"; tail -2 /tmp/ts-bug.log; }
cd /verif
for c in ${@:-$prop}; do
  timeout 900 ./check $c >/tmp/ts-check.log 2>/dev/null; echo "$id check $c: exit $?"; grep -v KNOWN /tmp/ts-check.log | head -2 | cut -c1-260
done
git -C /repo checkout -- .
