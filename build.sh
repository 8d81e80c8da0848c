#!/bin/bash
# Builds the Python extension from /repo's working tree (only into folders git ignores there).
. /opt/vp/env.sh
cd /repo || exit 2
LOG=$(mktemp /tmp/verif-build.XXXXXX)
(
  flock 9
  build_ext >"$LOG" 2>&1
) 9>/tmp/verif-build.lock
rc=$?
[ $rc -ne 0 ] && tail -40 "$LOG"
rm -f "$LOG"
exit $rc
