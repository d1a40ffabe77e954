#!/bin/bash
# check.sh <property>: decide one property on /repo's current tree.
# VERIF_TIER (quick or thorough) and VERIF_SEED come from the caller.
cd "$(dirname "$0")" || exit 2
here=$PWD
export PATH=$PATH:/usr/local/go/bin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tier=${VERIF_TIER:-quick}
[ -x bin/gosym ] || bash setup.sh || exit 2
mkdir -p evidence
secs=600
exec bin/gosym -repo "${VERIF_REPO:-/repo}" -harness "$here/harness" -prop "$1" -tier "$tier" \
  -seed "${VERIF_SEED:-1}" -secs $secs -out "$here/evidence/$1.json" -known "$here/known_findings.txt"
