#!/bin/bash
# seedsuite.sh ID...: the repository's stable tests with each planted change
for i in "$@"; do
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  bash /opt/vp/test.sh /tmp/suite.json > /tmp/suite.log 2>&1
  git -C /repo checkout -q -- .
  python3 - "$i" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/suite.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
bad=[t for t in st if t not in r['passed']]
print(sys.argv[1], 'suite ok' if not bad else f'FAILS {len(bad)}: {bad[:3]}')
P
done
