#!/bin/bash
# bash /verif/replay.sh FILE.json : replays a recorded counterexample against /repo.
cd "$(dirname "$0")" && . ./env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
h=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["harness"].split(".")[0])' "$1")
printf 'package main\nimport _ "verif/harness/h/%s"\n' "$h" > "$t/imports.go"
echo "{\"Replace\":{\"$PWD/harness/cmd/replay/imports.go\":\"$t/imports.go\"}}" > "$t/o.json"
f=$(realpath "$1"); cd harness && go build -overlay "$t/o.json" -o "$t/replay" ./cmd/replay && "$t/replay" "$f"
