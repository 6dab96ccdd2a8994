#!/bin/bash
# warms the build cache; every check builds again from /repo's working tree
cd "$(dirname "$0")" || exit 2
for v in plain sched; do
  D=$(mktemp -d /tmp/verifsetup.XXXXXX) || exit 2
  VERIF_OUT=$D ./build.sh $v >/dev/null || { rm -rf "$D"; exit 2; }
  rm -rf "$D"
done
exit 0
