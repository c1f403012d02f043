#!/bin/bash
# replay.sh FILE: reruns a replay file against /repo's working tree and prints
# what happens; exit 1 and the VIOLATION line if it reproduces.
set -u
FILE=$(realpath "$1")
cd "$(dirname "$0")"
DIR=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX") || exit 3
trap 'rm -rf -- "$DIR"' EXIT
if grep -q '"race": true' "$FILE"; then
	./sim/build.sh "$DIR" race || exit 3
	BIN=simcheck-race
else
	./sim/build.sh "$DIR" || exit 3
	BIN=simcheck
fi
export GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path=$DIR/race"
cp -- "$FILE" "$DIR/replay.json"
"$DIR/$BIN" replay -file "$DIR/replay.json" -v | sed "s#$DIR/replay.json#$FILE#"
exit "${PIPESTATUS[0]}"
