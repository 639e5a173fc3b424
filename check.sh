#!/bin/bash
# check.sh PROPERTY [quick|thorough] - rebuilds the simulator against /repo's
# working tree and searches for violations of one property.
cd "$(dirname "$0")" || exit 3
P=$1; T=${2:-${VERIF_TIER:-quick}}; S=${VERIF_SEED:-1}
case $P in P19|P23|P25|P28) G=all;; *) G=core;; esac # only these need the bindings
if ! out=$(bash sim/build.sh $G 2>&1); then echo "$out" | tail -40; echo "the build failed"; exit 3; fi
mkdir -p evidence
exec build/simcheck --property "$P" --tier "$T" --seed "$S" --root "$PWD"
