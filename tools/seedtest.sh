#!/bin/bash
# usage: tools/seedtest.sh ID...   confirm planted bugs in a scratch copy and run their check on it
cd "$(dirname "$0")/.."; PWD0=$PWD
for id in "$@"; do
  S=seeded/$id; W=/tmp/seedw_$id
  rm -rf "/tmp/seedw_$id"; cp -a "${SEED_REPO:-/repo}" "$W"
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd $W && bash $PWD0/$S/demo.sh >/tmp/seed_$id.d0 2>&1); d0=$?
  git -C $W apply $PWD0/$S/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $W && bash $PWD0/$S/demo.sh >/tmp/seed_$id.d1 2>&1); d1=$?
  if [ -z "$NOTEST" ]; then
  (cd $W && PYTHONPATH=$W/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --disable-warnings -o junit_family=xunit2 --junitxml=/tmp/seed_$id.xml >/dev/null 2>&1
   /usr/bin/python3 /opt/vp/results.py /tmp/seed_$id.json junit:/tmp/seed_$id.xml >/dev/null 2>&1)
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/seed_$id.json'))['passed'])
print('ok' if b<=r else 'BROKEN '+str(sorted(b-r)[:3]))")
  fi
  c="-"; [ -f checks/${P,,}.py ] && { VERIF_REPO=$W VERIF_EVIDENCE=/tmp/seed_ev /opt/venv/bin/python checks/${P,,}.py --tier quick >/tmp/seed_$id.c 2>&1; c=$?; grep -q "VIOLATION property=$P" /tmp/seed_$id.c && c="$c caught"; }
  echo "$id property=$P demo_clean=$d0 demo_bug=$d1 tests=$t check=$c"
  rm -rf "/tmp/seedw_$id"
done
