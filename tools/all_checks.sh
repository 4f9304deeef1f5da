#!/bin/bash
# usage: all_checks.sh [CHECKS...]   runs the checks (all of them by default) four at a time and prints those that did not exit 0; VERIF_SEED and TIER pass through
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(seq -f 'C%02g' 1 33)
printf '%s\n' "$@" | xargs -P 4 -I{} sh -c 'out=$('"$here"'/check {} --tier '"${TIER:-quick}"' 2>&1) || { echo "{} exit $?"; echo "$out" | tail -4; }'
echo "ran $# checks"
