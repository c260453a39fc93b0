#!/bin/bash
# trybug.sh PATCH PROP... : runs the checks of the properties in a scratch copy of /verif against a
# scratch copy of /repo with the patch applied, and prints the result of each.
V=$(cd "$(dirname "$0")/.." && pwd); . "$V/env.sh"
p=$(realpath "$1"); shift
t=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo" && git -C "$t/repo" apply "$p" || exit 2
mkdir "$t/v" "$t/v/evidence" && cp -a "$V/harness" "$V/known_findings.txt" "$V/properties.jsonl" "$t/v/"
sed -i "s#=> /repo#=> $t/repo#" "$t/v/harness/go.mod"
for q in "$@"; do
  s=$(date +%s)
  timeout 900 "$V/bin/symgo" -root "$t/v" -prop "$q" -tier "${VERIF_TIER:-quick}" ${SYMGO_FLAGS:-} > "$t/out" 2>&1; rc=$?
  v=$(grep -m1 '^VIOLATION' "$t/out")
  c=$(grep -c 'complete=false' "$t/out")
  echo "$q rc=$rc $(( $(date +%s) - s ))s incomplete=$c $v"
  [ -n "$SHOW" ] && tail -${SHOW} "$t/out"
done
