#!/bin/bash
# usage: refcheck.sh [ID...]   every edit in refactors/ keeps the behaviour: the tests pass and the listed checks are quiet
cd /verif; [ $# -gt 0 ] || set -- $(ls refactors)
for id in "$@"; do
  S=/verif/refactors/$id
  if [ -n "${TESTS:-}" ]; then
    W=/tmp/seedcopy; [ -d $W ] || cp -a /repo $W
    git -C $W reset -q --hard "$(git -C /repo rev-parse HEAD)"; git -C $W apply $S/patch.diff || { echo "$id: does not apply"; continue; }
    (cd $W && CARGO_NET_OFFLINE=true cargo test --workspace --all-features --offline >/tmp/sc.test 2>&1) || { echo "$id: TESTS FAIL"; grep -E "^error|panicked" -A6 /tmp/sc.test | head -20; }
    git -C $W checkout -q -- .
  fi
  echo "# $id"; tools/try.sh $S/patch.diff ${CHECKS:-$(cat $S/checks)} | grep -v "exit 0$"
done
