#!/bin/bash
# plants.sh [ids]: runs each planted bug's quick check against a scratch copy of /repo with the bug applied, and prints what
# happened. Development tool, not part of any check.   plants.sh > tools/catches.txt
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/plants.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
for d in ${@:-$(ls "$here/seeded")}; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$d/meta.json'))['property'])")
  git -C "$w/repo" checkout -q -- . && git -C "$w/repo" apply "$here/seeded/$d/patch.diff" || { echo "$d $p DOES NOT APPLY"; continue; }
  o=$(cd "$here" && VERIF_SEED=${SEED:-1} VERIF_REPO="$w/repo" timeout 900 bash check.sh $p 2>&1); rc=$?
  case $rc in 1) r=caught;; 0) r=MISSED;; *) r="rc=$rc";; esac
  echo "$d $p $r: $(echo "$o" | grep -v KNOWN | grep -v '^VIOLATION' | head -1 | tr -s ' ' | cut -c1-110)"
done
