#!/bin/bash
# build.sh OUT [race]: rewrites /repo's working tree into OUT and builds the
# simulation worker OUT/simcheck from it.
set -eu
OUT=$1
SIM=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
export HOME=${HOME:-/root}
mkdir -p "$OUT"
sed '/go-modbus/d' "$SIM/go.mod" >"$OUT/tool.mod"
cp "$SIM/go.sum" "$OUT/tool.sum"
cd "$SIM"
go build -modfile="$OUT/tool.mod" -o "$OUT/rewrite" ./cmd/rewrite
"$OUT/rewrite" -src "$REPO" -out "$OUT" -shims "$SIM/shim"
cp "$SIM/go.mod" "$OUT/sim.mod"
cp "$SIM/go.sum" "$OUT/sim.sum"
echo "replace github.com/things-go/go-modbus => $OUT/modbus" >>"$OUT/sim.mod"
if [ "${2:-}" = race ]; then
	# Allocations must go through the entry the detector knows, in the
	# uninstrumented packages too.
	if GOEXPERIMENT=nosizespecializedmalloc go version >/dev/null 2>&1; then
		export GOEXPERIMENT=nosizespecializedmalloc
	fi
	# Nothing of the code may be inlined into the harness, where the detector
	# would not see it.
	go build -race -modfile="$OUT/sim.mod" -gcflags='verif.local/sim/...=-race=false' \
		-gcflags='verif.local/sim/cmd/simcheck=-race=false -l' \
		-gcflags='verif.local/sim/caller=' -o "$OUT/simcheck-race" ./cmd/simcheck
else
	go build -modfile="$OUT/sim.mod" -o "$OUT/simcheck" ./cmd/simcheck
fi
