#!/bin/bash
# seedtest.sh [ID...] : runs, for each planted bug, the check of its property on a scratch copy with it applied.
V=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ $# = 0 ] && ids=($(ls "$V/seeded"))
for i in "${ids[@]}"; do echo "$i"; done | xargs -P ${J:-3} -I{} bash -c '
p=$(python3 -c "import json;print(json.load(open(\"'$V'/seeded/{}/meta.json\"))[\"property\"])")
echo "{} $(bash '$V'/tools/trybug.sh '$V'/seeded/{}/patch.diff $p)"'
