#!/bin/bash
# mkseed.sh ID: turns the working tree difference of /tmp/seedwt into
# /verif/seeded/ID (demo.cpp and meta.json are expected there already), runs the
# demonstration with and without it, and removes the change from the scratch tree
set -u
id=$1; d=/verif/seeded/$id; wt=/tmp/seedwt
[ -d $wt ] || git -C /repo worktree add -q --detach $wt HEAD
mkdir -p $d/kit
git -C $wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/demo/build.sh /verif/tools/demo/common.h /verif/nanothread/src/nanothread.cpp $d/kit/
cp -r /verif/nanothread/include/nanothread /verif/robin_map/include/tsl $d/kit/
cp /verif/tools/demo/demo.sh $d/
git -C $wt checkout -q -- .
(cd $wt && bash $d/demo.sh) > /tmp/demo.clean 2>&1; a=$?
git -C $wt apply $d/patch.diff
(cd $wt && bash $d/demo.sh) > /tmp/demo.bug 2>&1; b=$?
git -C $wt checkout -q -- .
echo "$id clean=$a"; [ $a = 0 ] || tail -5 /tmp/demo.clean
echo "$id bug=$b"; tail -4 /tmp/demo.bug
[ $a = 0 ] && [ $b != 0 ] && python3 -c "import json;m=json.load(open('$d/meta.json'));assert set(m)>={'property','needs','what_it_breaks'}" && echo "$id OK"
