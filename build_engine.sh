#!/bin/bash
# Builds the engine into bin/ (git-ignored); a no-op when it is up to date.
cd "$(dirname "$0")" && . ./env.sh
mkdir -p bin evidence
cd engine && go build -o ../bin/symgo .
