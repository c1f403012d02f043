#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulation from /repo's working
# tree in a scratch directory and explores the property.
set -u
cd "$(dirname "$0")"
VERIF=$PWD
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
DIR=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX") || exit 3
trap 'rm -rf -- "$DIR"' EXIT
mkdir "$DIR/run"
BIN=simcheck
if [ "$PROP" = X01 ]; then BIN=simcheck-race; fi
if [ "$PROP" = X01 ]; then
	"$VERIF/sim/build.sh" "$DIR" race >"$DIR/build.log" 2>&1
else
	"$VERIF/sim/build.sh" "$DIR" >"$DIR/build.log" 2>&1
fi
if [ $? -ne 0 ]; then
	cat "$DIR/build.log"
	echo "check.sh: the simulation does not build" >&2
	exit 3
fi
RACEOPTS=halt_on_error=0\ exitcode=0\ atexit_sleep_ms=0\ suppress_equal_stacks=0\ suppress_equal_addresses=0\ history_size=4
export GORACE="$RACEOPTS log_path=$DIR/race"
LIMIT=400
if [ "$TIER" = thorough ]; then LIMIT=7200; fi
"$DIR/$BIN" check -prop "$PROP" -seed "$SEED" -tier "$TIER" -dir "$DIR/run" -wall "$LIMIT" \
	-evidence "$VERIF/evidence/$PROP.json" -replays "$VERIF/replays"
