#!/bin/bash
# Builds the simulator once, so that Go's build cache is warm. The checks build again.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 2
bash "$here/run.sh" build "$d"; rc=$?
rm -rf "$d"
exit $rc
