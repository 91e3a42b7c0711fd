#!/bin/bash
# builds the engine and warms the build cache; check.sh does the same if needed
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
(cd engine && go build -o ../bin/engine .) || exit 2
(cd harness && go build -o /dev/null ./cmd/replay) || exit 2
for t in z3-new; do command -v $t >/dev/null || { echo "no $t"; exit 2; }; done
