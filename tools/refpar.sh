#!/bin/bash
# usage: refpar.sh [-j N] [-s] ID...  like refcheck.sh (or, with -s, the checks of seeded/ID), in N copies of /repo and /verif at a time
N=3; S=; while :; do case ${1:-} in -j) N=$2; shift 2;; -s) S=1; shift;; *) break;; esac; done
[ $# -gt 0 ] || set -- $(ls /verif/refactors)
B=${REFDIR:-/tmp/refpar}; rm -rf "$B"; mkdir -p $B
printf '%s\n' "$@" > $B/list
worker() {
  W=$B/$1; mkdir -p $W
  rsync -a --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { mkdir -p $W/repo; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C $W/repo; }
  mkdir -p $W/verif; (cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./refactors .) | tar xf - -C $W/verif
  (cd $W/repo && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x)
  while :; do
    id=$(flock $B/lock sh -c "head -1 $B/list; sed -i 1d $B/list"); [ -n "$id" ] || break
    if [ -n "$S" ]; then P=/verif/seeded/$id/patch.diff; C=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; else P=${SRC:-/verif/refactors}/$id/patch.diff; C=${CHECKS:-$(cat ${SRC:-/verif/refactors}/$id/checks)}; fi
    cp $P $W/p.diff
    (cd $W/repo && git apply $W/p.diff) || { echo "# $id does not apply"; continue; }
    { echo "# $id"; for c in $C; do
      t=$SECONDS
      O=$(timeout 900 unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && ./check.sh $c" 2>&1); s=$?
      if [ $s != 0 ] || [ -n "$S" ] || [ $((SECONDS - t)) -gt 150 ]; then echo "== $c exit $s ($((SECONDS - t)) s)"; [ $s = 0 ] || echo "$O" | grep -E '^  |VIOLATION' | cut -c1-260 | head -${LINES_MAX:-4}; fi
    done; } > $W/out
    flock $B/olock cat $W/out
    git -C $W/repo checkout -q -- . ; git -C $W/repo clean -qfd
  done
}
for k in $(seq $N); do worker $k & done; wait
rm -rf "$B"
