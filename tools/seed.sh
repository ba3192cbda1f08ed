#!/bin/bash
# seed.sh ID: confirm a planted bug in a scratch copy of /repo: applies, builds, passes the stable
# tests, demo passes without it and fails with it.
id="$1"; d=/verif/seeded/$id; wt=/tmp/seedwt
[ -d $wt ] || cp -a /repo $wt
cd $wt && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e target -e node_modules -e dashboard/dist
sed "s#/repo#$wt#g" /opt/vp/env.sh > /tmp/seed-env.sh
run_demo() { local f; f=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $d/. $f/; rm -f $f/*.diff $f/meta.json; (cd $wt && timeout 300 bash $f/demo.sh) > /tmp/seed-demo.log 2>&1; local r=$?; rm -rf "$f"; return $r; }
build() { (. /tmp/seed-env.sh && cargo test --workspace --no-run --offline --locked) > /tmp/seed-build.log 2>&1; }
if [ -z "$SKIP_CLEAN" ]; then
build || { echo "$id: unpatched build failed"; tail -5 /tmp/seed-build.log; exit 1; }
run_demo || { echo "$id: demo fails on the unchanged tree"; tail -20 /tmp/seed-demo.log; exit 1; }
fi
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
build || { echo "$id: patched build failed"; grep -A8 '^error' /tmp/seed-build.log | head -40; git checkout -q -f .; exit 1; }
run_demo && { echo "$id: demo passes with the bug"; tail -5 /tmp/seed-demo.log; git checkout -q -f .; exit 1; }
tail -2 /tmp/seed-demo.log
if [ -z "$SKIP_TESTS" ]; then
  (sed "s#/repo#$wt#g;s#/opt/vp/env.sh#/tmp/seed-env.sh#g" /opt/vp/test.sh > /tmp/seed-test.sh; bash /tmp/seed-test.sh /tmp/seed-t.json) > /tmp/seed-test.log 2>&1
  python3 - <<'P' || { git checkout -q -f .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed-t.json'))
m=set(b['stable'])-set(t['passed'])
if m: print("stable tests fail:",m); sys.exit(1)
P
fi
git checkout -q -f .
echo "$id: confirmed"
