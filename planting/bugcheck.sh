#!/bin/bash
# bugcheck.sh [-n] ID...: confirms each planted bug (builds, passes the stable tests, demonstration fails) and runs its property's check on it. -n: skip build, tests and demo.
fast=0; [[ $1 == -n ]] && { fast=1; shift; }
ids=${*:-$(ls /verif/seeded)}
mkdir -p /tmp/bugwork
for id in $ids; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  st=""
  if [[ $fast == 0 ]]; then
    if bash /opt/vp/build.sh > /tmp/bugwork/$id.build 2>&1; then
      bash /opt/vp/test.sh /tmp/bugwork/$id.json > /tmp/bugwork/$id.test 2>&1
      st="tests:$(python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bugwork/%s.json'%sys.argv[1]))
def names(x,k): 
    v=x.get(k, []) if isinstance(x,dict) else x
    return set(v if isinstance(v,list) else v.keys())
base=names(b,'passed') or names(b,'stable') or set(b.get('tests',[]))
ok=names(r,'passed'); miss=base-ok
print('%d/%d%s'%(len(base&ok),len(base),(' MISSING '+' '.join(sorted(miss)[:3])) if miss else ''))
P
)"
      (cd /repo && bash "$d/demo.sh" > /tmp/bugwork/$id.demo 2>&1); st="$st demo:$?"
    else st="BUILD-FAILED"; fi
  fi
  t0=$(date +%s)
  SIM_WORK=/tmp/bugwork SIM_SCALE=${SIM_SCALE:-1} python3 /verif/tools/check.py $prop > /tmp/bugwork/$id.check 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $st check $prop: $rc ($(( $(date +%s) - t0 )) s) $(head -1 /tmp/bugwork/$id.check | cut -c1-150)"
done
if [[ $fast == 0 ]]; then
bash /opt/vp/build.sh > /tmp/bugwork/final.build 2>&1 || echo "final build failed"
for id in $ids; do (cd /repo && bash "/verif/seeded/$id/demo.sh" > /tmp/bugwork/$id.demo0 2>&1) || echo "$id: demo fails on the unchanged tree: $(tail -2 /tmp/bugwork/$id.demo0)"; done
fi
git -C /repo status --short | head
