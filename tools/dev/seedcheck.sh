#!/bin/bash
# seedcheck.sh ids... : apply in /repo, run checks of the property (+ tests with T=1), undo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id APPLY FAIL"; continue; }
  if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sc.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]
print('$id tests', 'OK' if not m else m[:3])
P
  fi
  (cd /verif; python3 check.py $prop > /tmp/sc.out 2>&1; echo "$id $prop exit $?"; grep -v "^S" /tmp/sc.out | cut -c1-220 | head -4)
  git -C /repo checkout -- .
done
