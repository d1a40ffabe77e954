#!/bin/bash
# development: run the check of each planted bug against a copy of the repository with the bug
# usage: tools/bugs.sh [id...]
. /opt/vp/env.sh
cd /verif/engine && go build -o /verif/bin/gosym . || exit 9
cd /verif
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
W=/tmp/verif-bugs
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo main && git -C $W checkout -q -f FETCH_HEAD
touch /verif/tools/catches.txt
for id in "${ids[@]}"; do
	git -C $W checkout -q -- .
	git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	s=$(date +%s)
	out=$(bin/gosym -repo $W -harness /verif/harness -prop $p -out /tmp/verif-bugs.json -known /verif/known_findings.txt 2>&1)
	c=$?
	echo "$id $p exit $c $(($(date +%s) - s))s $(grep -m1 'counterexample in' <<<"$out" | cut -c1-150)"
	out=$(grep -vFf <(sed -n 's/^known:.*label="\([^"]*\)".*/\1/p' /verif/known_findings.txt) <<<"$out")
	h=$(sed -n 's/^  counterexample in \([^:]*\): .*/\1/p' <<<"$out" | sort -u | paste -sd ' ')
	[ $c = 1 ] || h=missed
	sed -i "/^$id /d" /verif/tools/catches.txt; echo "$id $h" >>/verif/tools/catches.txt
	[ $c = 1 ] || tail -3 <<<"$out"
done
git -C $W checkout -q -- .
sort -o /verif/tools/catches.txt /verif/tools/catches.txt
python3 /verif/tools/mkcatches.py
