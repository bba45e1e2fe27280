#!/bin/bash
# newseed.sh ID: takes the working tree diff of /tmp/seedrepo as the patch, adds the demo support files, confirms everything.
set -u
id=$1; S=/verif/seeded/$id; R=/tmp/seedrepo
cp /verif/tools/seedlib/demo.sh /verif/harness/src/img.rs /verif/harness/src/rng.rs $S/
cp /verif/harness/Cargo.lock $S/lock
[ -f $S/patch.diff ] || git -C $R diff > $S/patch.diff
git -C $R checkout -q -- .
echo "== $id"; 
(cd $R && cargo build --offline --quiet 2>&1 | tail -3; bash $S/demo.sh) > /tmp/seed_$id.clean 2>&1; a=$?
git -C $R apply $S/patch.diff || exit 9
(cd $R && cargo test --offline --quiet --features std,time 2>&1 | grep -E "^test result|^error|^test .*FAILED" | head -5); 
(cd $R && bash $S/demo.sh) > /tmp/seed_$id.patched 2>&1; b=$?
git -C $R checkout -q -- .
echo "clean=$a patched=$b"; grep -m2 -A3 panicked /tmp/seed_$id.patched
[ $a = 0 ] || tail -20 /tmp/seed_$id.clean
