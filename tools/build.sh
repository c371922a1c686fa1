#!/bin/bash
# build.sh OUT [cmd...]  builds the simulator binaries from /repo's working tree into OUT/bin
set -euo pipefail
OUT=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
GOROOT_=/opt/veriftools/go1.27.3
[ -x $GOROOT_/bin/go ] || GOROOT_=$(go env GOROOT)
export GOROOT=$GOROOT_ GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=0
unset GOOS GOARCH GODEBUG || true
GO=$GOROOT_/bin/go
mkdir -p "$OUT/bin" "$OUT/rt" "$OUT/instr" "$OUT/mod"
python3 "$V/rt/mkoverlay.py" "$GOROOT_" "$OUT/rt" >/dev/null
(cd "$V/instr" && GO111MODULE=off $GO build -o "$OUT/bin/instr" main.go)
dirs=$(cd "$REPO" && find streams msk -name '*.go' ! -name '*_test.go' -printf '%h\n' | grep -v -e /kafka_local -e testdata | sort -u | sed "s#^#$REPO/#")
"$OUT/bin/instr" -out "$OUT/instr" -json "$OUT/instr/overlay.json" -global sak/pool.go $dirs
python3 - "$OUT" <<'PY'
import json,sys
o=sys.argv[1]
a=json.load(open(o+"/rt/rt_overlay.json")); b=json.load(open(o+"/instr/overlay.json"))
a["Replace"].update(b["Replace"])
json.dump(a,open(o+"/overlay.json","w"))
PY
GO=$GO python3 "$V/deps/kgo_patch.py" "$OUT/kgo"
for m in "$@"; do
  mod=sim
  sed "s#=> /repo/#=> $REPO/#" "$V/$mod/go.mod" > "$OUT/mod/$mod.mod"
  cp "$V/$mod/go.sum" "$OUT/mod/$mod.sum"
  echo "replace github.com/twmb/franz-go => $OUT/kgo" >> "$OUT/mod/$mod.mod"
  (cd "$V/$mod" && $GO build -modfile "$OUT/mod/$mod.mod" -tags faketime -overlay "$OUT/overlay.json" -o "$OUT/bin/$m" ./cmd/$m)
done
