#!/bin/bash
# usage: seedcheck.sh ID...   demo on the clean copy and with the patch, tests with the patch, then the property's check on /repo
W=/tmp/seedcopy
[ -d $W ] || { cp -a /repo $W; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $W reset -q --hard "$(git -C /repo rev-parse HEAD)"
  L=/tmp/seedlaid; rm -rf /tmp/seedlaid; cp -r $S $L; rm -f $L/patch.diff $L/meta.json
  (cd $W && timeout 300 $L/demo.sh >/tmp/sc.clean 2>&1); a=$?
  git -C $W apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $W && CARGO_NET_OFFLINE=true cargo test --workspace --all-features --offline >/tmp/sc.test 2>&1); t=$?
  (cd $W && timeout 300 $L/demo.sh >/tmp/sc.bad 2>&1); b=$?
  git -C $W checkout -q -- .
  echo "$id [$P]: clean=$a tests=$t patched=$b  ($(tail -1 /tmp/sc.bad | cut -c1-100))"
  [ $a = 0 ] || tail -5 /tmp/sc.clean
  REFDIR=/tmp/refpar.s /verif/tools/refpar.sh -s -j 1 $id
done
