#!/bin/bash
# runseed.sh ID PROP... : apply the planted bug to /repo, run the checks, undo.
id=$1; shift
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for p in "$@"; do timeout 900 /verif/bin/check $p 2>&1 | tail -4 | sed "s/^/[$id] /"; done
git -C /repo checkout -q -- .
