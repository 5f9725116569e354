#!/bin/bash
# trybugs.sh [ID...]: run the quick check of its property against each planted bug (all by default), in a worktree.
VERIF=$(cd "$(dirname "$0")/.." && pwd)
WT=/tmp/trybugs-wt; [ -n "$TAG" ] && WT=$WT-$TAG
git -C /repo worktree add -q --detach "$WT" HEAD || exit 2
trap 'git -C /repo worktree remove --force "$WT"' EXIT
[ $# = 0 ] && set -- $(ls "$VERIF/seeded")
for id in "$@"; do
  d=$VERIF/seeded/$id; prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C "$WT" checkout -q -- . && git -C "$WT" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(cd "$VERIF" && REPO=$WT VERIF_SEED=${SEED:-1} timeout 900 ./run.sh "$prop" quick 2>&1); rc=$?
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$prop "; then echo "$id $prop caught $(( $(date +%s) - s )) s"; else echo "$id $prop MISSED rc=$rc $(( $(date +%s) - s )) s"; fi
done
