#!/bin/bash
# sanity: every reverted fix must be found by the concrete check of its property
for h in $(git -C /repo log --format=%h --grep '^fix:'); do
  d=$(mktemp -d /tmp/rv.XXXX); cp -a /repo/. $d/; (cd $d && git revert --no-edit $h >/dev/null 2>&1 || { git revert --abort; echo "$h conflict"; })
  echo "== $(git -C /repo log -1 --format='%h %s' $h)"
  for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C18 C19 C20 C21 C22}; do
   ( DV_REPO=$d timeout 120 /opt/venv/bin/python /verif/conc/conc.py search $p 1 8 $d/o_$p.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('$d/o_$p.json'));v=d['violation']
if v: print('   $p',v['kind'],v['message'][:150])" 2>/dev/null || echo "   $p ERR" ) &
  done; wait
  rm -rf $d
done
