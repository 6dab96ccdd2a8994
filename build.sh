#!/bin/bash
# build.sh plain|sched|race -> builds the check binary from /repo's current
# working tree; prints its path.
set -e -o pipefail
VARIANT=${1:-plain}
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOSUMDB=off
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
H=$VERIF/harness
OUT=${VERIF_OUT:-$VERIF/.build}/$VARIANT
rm -rf "$OUT"; mkdir -p "$OUT"
INSTR=""; [ "$VARIANT" = sched ] && INSTR="-instr"
RACE=""; [ "$VARIANT" = race ] && RACE="-race"
cp "$H/go.mod" "$OUT/go.mod"; cp /repo/go.sum "$OUT/go.sum"
cat "$H/go.sum" >> "$OUT/go.sum" 2>/dev/null || true
sort -u -o "$OUT/go.sum" "$OUT/go.sum"
cat >> "$OUT/go.mod" <<EOF
replace go.dedis.ch/onet/v3 => $OUT/onet
replace go.dedis.ch/kyber/v3 => $OUT/kyber
EOF
cd "$H"
build() { # flags of prep
  rm -rf "$OUT/instr" "$OUT/watch" "$OUT/reset" "$OUT/onet" "$OUT/kyber" "$OUT/cmdunlynx"
  go run -modfile="$OUT/go.mod" ./cmd/prep -out "$OUT" -harness "$H" "$@" >&2 &&
  go test -c $RACE -vet=off -modfile="$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$OUT/check.bin" ./checks >&2
}
# a change of the code may not fit the source transformations: use fewer of them
build $INSTR || build $INSTR -nowatch || build $INSTR -nowatch -nomaps || build $INSTR -nowatch -nomaps -novar || build -nowatch -novar || build -nowatch -novar -noreset
echo "$OUT/check.bin"
