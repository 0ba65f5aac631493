#!/bin/bash
# check.sh <property>: builds what the property needs from /repo's current tree, runs its check.
# Exit 0: held; 1 + VIOLATION line: broken; 2: the check itself could not run.
ID=$1; shift
cd /verif || exit 2
LOG=/verif/target/build-$ID.log
mkdir -p /verif/target
[ "$ID" = C28 ] && PY=py
if ! bash build.sh $PY >"$LOG" 2>&1; then
  echo "ERROR: harness does not build against /repo"; grep -E "^error" -A8 "$LOG" | head -60; exit 2
fi
exec timeout -k 5 ${VPBT_TIMEOUT:-14400} /verif/target/release/vpbt check "$ID" "$@"
