#!/bin/bash
# plant.sh ID: takes the uncommitted change in /tmp/plant (a copy of /repo), confirms it as a planted bug and
# stores it in /verif/seeded/ID, where demo.rs and meta.json already lie.
. /opt/vp/env.sh
id=$1; d=/verif/seeded/$id; p=/tmp/plant
cd $p || exit 3
git diff > $d/patch.diff
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
unset CARGO_TARGET_DIR
cargo test -p rexecutor --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1
a=$?
cargo test -p rexecutor-sqlx --offline -- --test-threads 8 --skip backend::test:: >> /tmp/plant.log 2>&1
b=$?
grep -E "^test .*FAILED|^error" /tmp/plant.log
echo "tests: $a $b"
bash $d/demo.sh > /tmp/demo.bad 2>&1; x=$?
git stash -q; bash $d/demo.sh > /tmp/demo.good 2>&1; y=$?
git stash drop -q
echo "demo: changed=$x unchanged=$y"
tail -5 /tmp/demo.bad; [ $y = 0 ] || tail -20 /tmp/demo.good
[ $a = 0 ] && [ $b = 0 ] && [ $x != 0 ] && [ $x != 3 ] && [ $y = 0 ] && echo "OK $id"
