#!/bin/bash
# tools/seeded.sh [NAME...]   run the check of each planted bug's property on a scratch copy of /repo with the bug
cd /verif/seeded || exit 2
for n in "${@:-*}"; do for b in $n; do
  d=$(mktemp -d /tmp/bug-XXXXXX)
  cp -a /repo/. "$d"
  git -C "$d" apply "/verif/seeded/$b/patch.diff" || { echo "$b: patch does not apply"; rm -rf "${d:?}"; continue; }
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$b/meta.json")
  s=$(date +%s)
  o=$(VERIF_REPO=$d /verif/check "$id" 2>&1); r=$?
  echo "$b $id exit $r $(( $(date +%s) - s ))s $(echo "$o" | grep -o 'minimised.*' | cut -c1-150)"
  rm -rf "${d:?}"
done; done
