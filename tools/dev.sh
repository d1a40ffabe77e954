#!/bin/bash
# development: build the engine and run one property
. /opt/vp/env.sh
cd /verif/engine && go build -o /verif/bin/gosym . || exit 9
cd /verif
p=$1; shift
exec bin/gosym -repo /repo -harness /verif/harness -prop $p -out /verif/evidence/$p.json -known /verif/known_findings.txt "$@"
