#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Decides one property by static analysis of /repo's current sources; exit 0: holds, 1: VIOLATION.
set -u
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/evidence"
fail() {
  R="$V/evidence/$P.violation.txt"; echo "$1" >"$R"; echo "$1"
  echo "VIOLATION property=$P replay=$R"; exit 1
}
D=$("$V/export.sh") || fail "the sources cannot be compiled for analysis"
timeout 720 "$V/build/engine/release/vsa" check "$P" "$D" "$V" "$T"
c=$?
[ $c -le 1 ] && exit $c
fail "the analysis of $P did not complete (status $c)"
