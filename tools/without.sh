#!/bin/bash
# tools/without.sh "COMMIT..." ID...   run checks on a scratch copy of /repo with some fix commits reverted
d=$(mktemp -d /tmp/without-XXXXXX)
cp -a /repo/. "$d"
for c in $1; do git -C "$d" revert -n "$c" >/dev/null 2>&1 || echo "CONFLICT reverting $c"; done
shift
for id in "$@"; do VERIF_REPO=$d /verif/check "$id"; echo "exit $?"; done
rm -rf "${d:?}"
