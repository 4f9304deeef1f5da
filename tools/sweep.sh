#!/bin/bash
# usage: sweep.sh BUG "CHECKS..."   applies a planted bug to /repo, runs the checks, undoes it; prints the checks that reported it
bug=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$here/seeded/$bug/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
caught=""; broken=""
for c in $@; do
  out=$(cd "$here" && ./check "$c" 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$c"; then caught="$caught $c"; elif [ $rc != 0 ]; then broken="$broken $c($rc)"; fi
done
echo "$bug caught by:$caught${broken:+  ERRORS:$broken}"
