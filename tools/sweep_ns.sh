#!/bin/bash
# usage: sweep_ns.sh PATCH CHECKS...   like sweep.sh, but in a private mount namespace: /repo is a patched scratch copy and
# /verif/evidence, /verif/replays are scratch folders, so several of these can run at once and nothing real is touched.
# PATCH is a planted bug's id or a path of a diff.  VERIF_SEED and TIER (quick) pass through; FIRST=1 stops at the first check that reports.
patch=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
name=$(basename "$patch" .diff)
[ -f "$patch" ] && patch=$(realpath "$patch") || patch="$here/seeded/$patch/patch.diff"
tmp=$(mktemp -d /tmp/sweep.XXXXXX); trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"; mkdir -p "$tmp/evidence" "$tmp/replays" "$here/evidence" "$here/replays"
git -C "$tmp/repo" checkout -q -- . && git -C "$tmp/repo" apply "$patch" || exit 2
export name tmp here
unshare -Urm bash -c '
mount --bind "$tmp/repo" /repo; mount --bind "$tmp/evidence" "$here/evidence"; mount --bind "$tmp/replays" "$here/replays"
caught=""; broken=""
for c in "$@"; do
  out=$(cd "$here" && ./check "$c" --tier "${TIER:-quick}" 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$c"; then caught="$caught $c"; elif [ $rc != 0 ]; then broken="$broken $c($rc)"; echo "$out" | tail -5 >&2; fi
  [ -n "$FIRST" ] && [ -n "$caught" ] && break
  [ -n "$VERBOSE" ] && echo "$out" | tail -${VERBOSE}
done
echo "$name caught by:$caught${broken:+  ERRORS:$broken}"' x "$@"
