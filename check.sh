#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Rebuilds from /repo's working tree, then explores. Exit 0: held; 1: VIOLATION; 2: error.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./build.sh || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
lim=840; [ "$tier" = thorough ] && lim=7200
export NO_COLOR=1
exec timeout -k 10 $lim "$CARGO_TARGET_DIR/debug/mc" "$1" "$tier"
