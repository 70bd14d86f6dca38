#!/bin/bash
# seedtest.sh ID... : confirm each planted bug in a scratch copy and run its property's check against it
# (scratch copy /tmp/seedrepo of /repo; nothing in /repo changes)
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
cd /tmp/seedrepo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for i in "$@"; do
  git checkout -q -- .
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  bash /verif/seeded/$i/demo.sh >/tmp/seed.$i.base 2>&1; b=$?
  git apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  bash /verif/seeded/$i/demo.sh >/tmp/seed.$i.patched 2>&1; p=$?
  VERIF_REPO=/tmp/seedrepo python3-vt /verif/check.py $prop quick >/tmp/seed.$i.check 2>&1; c=$?
  echo "$i [$prop] demo base=$b patched=$p check=$c $(grep -c '^failing input' /tmp/seed.$i.check) inputs $(grep -c '^failed obl' /tmp/seed.$i.check) obls $(grep VIOLATION /tmp/seed.$i.check | grep -o no-failing.*)"
  git checkout -q -- .
done
