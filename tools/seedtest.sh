#!/usr/bin/env bash
# usage: seedtest.sh [--notest] <seed id>...   validates planted bugs against /repo and the checks
notest=0; if [ "$1" = "--notest" ]; then notest=1; shift; fi
root=/verif
. /opt/vp/env.sh
if [ -n "$(git -C /repo status --porcelain)" ]; then echo "/repo is dirty"; exit 1; fi
for id in "$@"; do
  d=$root/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  tmp=$(mktemp -d /tmp/seed.XXXXXX); cp -r "$d/." "$tmp/"; rm -f "$tmp/patch.diff" "$tmp/meta.json"
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/tmp/seed.demo0 2>&1); d0=$?
  if ! git -C /repo apply "$d/patch.diff"; then echo "$id: DOES NOT APPLY"; rm -rf "$tmp"; continue; fi
  b=ok; bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || b=BUILDFAIL
  t=skipped
  if [ $notest = 0 ]; then
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print('ok' if not m else 'TESTFAIL %s'%sorted(m)[:3])")
  fi
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/tmp/seed.demo1 2>&1); d1=$?
  s=$(date +%s.%N)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash $root/run.sh $prop quick >/tmp/seed.check 2>&1; c=$?
  e=$(date +%s.%N)
  git -C /repo checkout -- .
  v=MISSED; if [ $c = 1 ] && grep -q "VIOLATION property=$prop " /tmp/seed.check; then v=caught; fi
  printf '%s %s build=%s tests=%s demo clean=%s bug=%s check rc=%s %s (%.0fs)\n' "$id" "$prop" "$b" "$t" "$d0" "$d1" "$c" "$v" "$(echo "$e - $s" | bc)"
  rm -rf "$tmp"
done
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
