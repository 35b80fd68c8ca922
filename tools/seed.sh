#!/bin/bash
# seed.sh <id>: confirms a planted bug in a scratch copy of /repo: patch applies, builds, stable tests pass,
# demo passes without and fails with it.
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt_$id
rm -rf "$W"; cp -a /repo "$W" || exit 2
cd "$W"; git checkout -q -- .
(bash "$S/demo.sh" >/tmp/seed_$id.clean 2>&1); a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
(cargo test --workspace --offline --no-fail-fast -- --test-threads 8 > /tmp/seed_$id.test 2>&1); 
p=$(grep -c "^test .* ok$" /tmp/seed_$id.test)
(bash "$S/demo.sh" >/tmp/seed_$id.bug 2>&1); b=$?
echo "$id: tests ok=$p demo clean=$a bug=$b $( [ $a = 0 ] && [ $b != 0 ] && [ $p -ge 30 ] && echo CONFIRMED || echo BAD)"
rm -rf "$W"
