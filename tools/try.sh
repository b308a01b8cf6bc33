#!/bin/bash
# usage: try.sh PATCHFILE CHECK...   apply a patch to /repo, run checks, undo it. ("-R" prefix file name with ! to reverse)
P=$1; shift
R=; case $P in !*) R=-R; P=${P#!};; esac
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 3; }
git apply $R "$P" || { echo "does not apply"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  O=$(/verif/check.sh $c 2>&1); s=$?
  echo "== $c exit $s"; [ $s = 0 ] || echo "$O" | grep -E '^  |VIOLATION' | cut -c1-260 | head -${LINES_MAX:-4}
done
