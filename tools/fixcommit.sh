#!/bin/bash
# usage: fixcommit.sh "fix: message"   (dev helper: format check, build, stable tests, commit in /repo)
cd /repo || exit 1
cargo fmt --check >/dev/null 2>&1 || cargo fmt
git diff --stat | tail -8
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -40 /tmp/build.log; exit 1; }
grep -A6 '^warning' /tmp/build.log | head -20
bash /opt/vp/test.sh /tmp/o.json >/dev/null || { cat /tmp/o.json; tail -30 /repo/target/vp-test.log; exit 1; }
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
ps=set(o['passed'])
need=b.get('stable') or b.get('passed') or b
missing=[t for t in need if t not in ps] if isinstance(need,list) else []
if missing: print("MISSING",missing); raise SystemExit(1)
P
git add -A && git commit -qm "$1" && git log --oneline | head -1
