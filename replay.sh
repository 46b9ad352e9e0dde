#!/bin/bash
# replay.sh FILE  -- rebuild and run a replay file; exit 1 when it shows the recorded violation.
F=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$F") || exit 2
. tools/build.sh || exit 2
mkdir -p scratch
S=$V/scratch/replay.$$
trap 'rm -rf "$S"' EXIT
sim/target/checked/$W replay --file "$F" --scratch "$S" \
  --exes "$EXES"
