#!/bin/bash
# run.sh PROP quick|thorough [replay FILE]
# Builds the check binaries from /repo's current working tree and runs the
# model checker for one property. Exit 0: held; 1: violation; 2: error.
PROP=$1; TIER=${2:-quick}
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF_DIR" || exit 2
export VERIF_TIER=$TIER VERIF_PROP=$PROP VERIF_SEED=${VERIF_SEED:-1}
VARIANT=plain
grep -qx "$PROP" "$VERIF_DIR/sched_props" 2>/dev/null && VARIANT=sched
SCR=$(mktemp -d /tmp/verifbuild.XXXXXX) || exit 2
trap 'rm -rf "$SCR"' EXIT
export VERIF_OUT=$SCR
BIN=$("$VERIF_DIR/build.sh" "$VARIANT" 2> "$SCR/build.log")
if [ -z "$BIN" ] || [ ! -x "$BIN" ]; then
  cat "$SCR/build.log"; echo "build failed"; exit 2
fi
export CONN_TIMEOUT=${CONN_TIMEOUT:-10m}
if [ "$3" = replay ]; then
  VERIF_ROLE=replay VERIF_REPLAY=$4 "$BIN" -test.run='^TestReplay$' -test.timeout=0 2>"$SCR/err.log" | grep -v '^=== RUN'
  exit ${PIPESTATUS[0]}
fi
VERIF_ROLE=master "$BIN" -test.run='^TestMaster$' -test.timeout=0 2>"$SCR/err.log"
RC=$?
[ $RC -gt 1 ] && tail -50 "$SCR/err.log"
exit $RC
