#!/bin/bash
# tools/mut.sh FILE 'python expression over s' ID...   run checks on a scratch copy of /repo with one edit
d=$(mktemp -d /tmp/mut-XXXXXX)
cp -a /repo/. "$d"
python3 - "$d/$1" "$2" <<'P' || { echo "edit failed"; rm -rf "${d:?}"; exit 3; }
import sys
p, e = sys.argv[1:]
s = open(p).read()
t = eval(e)
assert t != s, "no change"
open(p, "w").write(t)
P
shift 2
for id in "$@"; do VERIF_REPO=$d /verif/check "$id" 2>&1 | tail -3; echo "exit ${PIPESTATUS[0]}"; done
rm -rf "${d:?}"
