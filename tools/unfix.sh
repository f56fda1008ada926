#!/bin/bash
# unfix.sh "COMMIT PROP" ...: reverts one fix in a scratch copy and runs the check
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/unfix.XXXX); cp -a /repo "$T/repo"; cp -a "$V" "$T/verif"
for cp in "$@"; do set -- $cp
  cd "$T/repo" && git checkout -q -f HEAD -- . && git show "$1" | git apply -R --3way 2>/tmp/unfix.err || { echo "$1 $2 CONFLICT"; git reset -q --hard; continue; }
  git reset -q
  VP_SHRINK=0 VP_REPO=$T/repo python3 "$T/verif/check.py" "$2" >"$T/out" 2>&1; rc=$?
  echo "$1 $2 rc=$rc $(grep -c VIOLATION "$T/out") $(git -C /repo log -1 --format=%s $1)"
done
rm -rf "$T"
