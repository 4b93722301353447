#!/bin/bash
# usage: seedtest.sh ID...   each planted change: applies, builds, stable tests pass, demo 0 without and nonzero with it
R=/tmp/seedrepo
[ -d $R ] || cp -a /repo $R
for id in "$@"; do
    S=/verif/seeded/$id
    git -C $R checkout -q -- . && git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
    (cd $R && cargo build --workspace --offline -q 2>/dev/null)
    rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp -a $S/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
    (cd $R && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.out 2>&1); a=$?
    [ $a -eq 0 ] || tail -5 /tmp/seeddemo.out
    git -C $R apply $S/patch.diff || { echo "$id: does not apply"; continue; }
    (cd $R && cargo build --workspace --offline -q 2>/tmp/seedbuild.log) || { echo "$id: does not build"; tail /tmp/seedbuild.log; git -C $R checkout -q -- .; continue; }
    t=$(cd $R && cargo test --workspace --offline 2>&1 | grep -E "^test result" | awk '{p+=$4; f+=$6} END {print p"/"f}')
    (cd $R && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.out 2>&1); b=$?
    git -C $R checkout -q -- .
    echo "$id: clean=$a patched=$b tests(pass/fail)=$t $(tail -1 /tmp/seeddemo.out | cut -c1-100)"
done
