#!/bin/bash
# Builds the engine and warms the build cache; run once, offline.
cd "$(dirname "$0")" && . ./env.sh
bash ./build_engine.sh || exit 1
./bin/symgo -selftest || exit 1
cd harness && go build ./... 
