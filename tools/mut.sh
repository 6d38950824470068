#!/bin/bash
# tools/mut.sh PATCH ID...   : run checks ID... on a scratch copy of /repo with PATCH applied
set -e
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'find "$D" -delete 2>/dev/null || true' EXIT
cp -a /repo/pylbm "$D/"; (cd $D && git init -q . && git apply --include='pylbm/*' "$P")
cd "$(dirname "$0")/.."
for i in "$@"; do VC_REPO=$D bash run.sh $i $MUTARGS || true; done
