#!/bin/bash
# Builds the simulation once, so that later builds find a warm cache.
set -eu
cd "$(dirname "$0")"
DIR=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX")
trap 'rm -rf -- "$DIR"' EXIT
./sim/build.sh "$DIR"
./sim/build.sh "$DIR" race
