#!/bin/bash
# check.sh PROPERTY quick|thorough: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
t="${2:-${VERIF_TIER:-quick}}"
# go's build cache makes this a no-op when nothing changed
(cd engine && go build -o ../bin/engine .) || exit 2
exec bin/engine -verif "$PWD" -prop "$1" -tier "$t"
