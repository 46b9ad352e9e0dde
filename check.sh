#!/bin/bash
# check.sh PROPERTY  -- build the simulator from /repo's working tree and decide one property.
# VERIF_SEED and VERIF_TIER choose the seed and the depth.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1; shift
. tools/build.sh || exit 2
mkdir -p evidence replay-out scratch
S=$V/scratch/$P.$$
trap 'rm -rf "$S"' EXIT
TIER=${VERIF_TIER:-quick}
set -- "$@"
sim/target/checked/$W check --prop "$P" --seed "${VERIF_SEED:-1}" --tier "$TIER" \
  --exes "$EXES" \
  --scratch "$S" --evidence "$V/evidence/$P.json" --replays "$V/replay-out" --known "$V/known-findings.txt" "$@"
