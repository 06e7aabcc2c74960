#!/bin/bash
# development aid: tools/try.sh PATCH ID...   runs checks against a scratch copy of /repo with PATCH applied
P=$(readlink -f "$1"); shift
W=$(mktemp -d /tmp/try.XXXXXX)
git -C /repo archive HEAD | tar -x -C "$W" && (cd "$W" && git init -q . && git apply "$P") || { echo "does not apply"; rm -rf "$W"; exit 2; }
cd "$(dirname "$0")/.."
for i in "$@"; do
  VERIF_REPO="$W" timeout 900 python3 run.py $i > "$W/out" 2>&1; r=$?
  echo "$(basename $(dirname "$P"))/$i rc=$r $(grep -E '^phase|^ERROR' "$W/out" | cut -c1-300)"
done
rm -rf "$W"
