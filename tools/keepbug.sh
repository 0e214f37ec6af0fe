#!/bin/bash
# keepbug.sh <id>: takes the change made in the scratch copy /tmp/wt, confirms it, and keeps it as seeded/<id>.
# seeded/<id>/demo.rs and meta.json are there already. Then resets /tmp/wt and runs the property's check on it.
id=$1; d=${SEEDED:-/verif/seeded}/$id; wt=/tmp/wt
cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
git -C $wt diff >$d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
( cd $wt && cargo fmt --check >/dev/null 2>&1 || echo "(not formatted)"; cargo test --workspace --all-features --offline >/tmp/wt.log 2>&1 ); 
p=$(grep -o "[0-9]* passed" /tmp/wt.log | awk '{s+=$1} END{print s}'); f=$(grep -c "^test .*FAILED" /tmp/wt.log)
echo "tests: $p passed, $f failed"; [ "$f" = 0 ] && grep -q "test result" /tmp/wt.log || { grep -E "FAILED|error" -A5 /tmp/wt.log | head -30; exit 1; }
( cd $wt && bash $d/demo.sh >/tmp/demo.patched 2>&1 ); a=$?
git -C $wt checkout -q -- .
( cd /repo && bash $d/demo.sh >/tmp/demo.clean 2>&1 ); b=$?
echo "demo: patched $a, clean $b"; [ $a != 0 ] && [ $a != 4 ] && [ $b = 0 ] || { cat /tmp/demo.patched /tmp/demo.clean; exit 1; }
[ -n "$NOTRY" ] || /verif/tools/trybug.sh $id
