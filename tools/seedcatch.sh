#!/bin/bash
# usage: seedcatch.sh ID...   applies each planted change to a copy of /repo, runs the check of its property
# (and any listed in CHECKS) from a copy of the harness against it. PATCH=file instead of IDs: any patch.
B=/tmp/seedcatch; R=$B/repo; V=$B/v
mkdir -p $V
[ -d $R ] || git clone -q /repo $R
git -C $R checkout -q -- . && git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
mkdir -p $V/harness/src
for f in src/carron_tsan.rs Cargo.toml Cargo.lock build-asan.sh build-tsan.sh build.rs rust-toolchain.toml; do [ -e /verif/harness/$f ] && sed "s#\"/repo#\"$R#g" /verif/harness/$f > $V/harness/$f.new && { cmp -s $V/harness/$f.new $V/harness/$f && rm $V/harness/$f.new || mv $V/harness/$f.new $V/harness/$f; }; done
chmod +x $V/harness/*.sh
(cd /verif/harness && find src .cargo -type f 2>/dev/null) | grep -v carron_tsan.rs | while read f; do mkdir -p "$V/harness/$(dirname $f)"; cmp -s /verif/harness/$f $V/harness/$f || cp /verif/harness/$f $V/harness/$f; done
cp /verif/check.sh /verif/known_findings.txt $V/
run() { # name patch checks
    git -C $R apply "$2" || { echo "$1: does not apply"; return; }
    for q in $3; do
        s=$(date +%s); out=$(cd $V && ./check.sh $q 2>&1); rc=$?
        echo "$1: $q rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 -a -E "VIOLATION|KNOWN|error|INCONCL" | cut -c1-150)"
    done
    git -C $R checkout -q -- .; git -C $R clean -fdq src
}
if [ -n "$PATCH" ]; then run "$PATCH" "$PATCH" "$CHECKS"; fi
for id in "$@"; do
    S=/verif/seeded/$id
    run $id $S/patch.diff "${CHECKS:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
done
