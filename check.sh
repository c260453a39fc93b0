#!/bin/bash
# bash check.sh PROPERTY : decides one property for /repo's current tree (VERIF_TIER=quick|thorough).
cd "$(dirname "$0")" && . ./env.sh
bash ./build_engine.sh || exit 2
exec ./bin/symgo -root "$PWD" -prop "$1" -tier "${VERIF_TIER:-quick}" ${SYMGO_FLAGS:-}
