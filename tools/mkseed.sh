#!/bin/bash
# mkseed.sh ID PROPERTY  : takes the difference in scratch copy /tmp/seedwt as patch of /verif/seeded/ID,
# verifies build, stable tests and demo (which must lie in /verif/seeded/ID already) with and without it.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/seedwt
cd $w && git diff > $d/patch.diff && [ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d); cp -a $d $t/demo; rm -f $t/demo/patch.diff $t/demo/meta.json
(cd $w && bash $t/demo/demo.sh >$t/o1 2>&1); r1=$?
git -C $w stash -q; (cd $w && bash $t/demo/demo.sh >$t/o0 2>&1); r0=$?; git -C $w checkout -q -- . ; git -C $w stash drop -q
echo "$id demo: unchanged=$r0 (0) changed=$r1 (nonzero)"; [ $r0 -ne 0 ] && tail -5 $t/o0; [ $r1 -eq 0 ] && tail -5 $t/o1
rm -rf "$t"
