#!/bin/bash
# Warms the build caches; every check builds for itself from /repo.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/vcol-setup-XXXXXX)
bash "$here/build.sh" "$d/a" && bash "$here/build.sh" "$d/b" --sched
rc=$?
rm -rf "${d:?}"
exit $rc
