#!/bin/bash
# tryseed.sh ID [nocheck]: tests, demo and check of /verif/seeded/ID, in a scratch copy (tests, demo) and on /repo (check).
set -u
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/w/repo
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
( cd $W && bash $S/demo.sh >/tmp/w/demo0 2>&1 ); echo "$1 demo unpatched: $?"
git -C $W apply $S/patch.diff || exit 1
( cd $W && CARGO_TARGET_DIR=/tmp/w/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true timeout 600 cargo test --offline >/tmp/w/test.log 2>&1 ); echo "$1 tests: $? $(grep -h 'test result' /tmp/w/test.log | tr '\n' ' ')"
( cd $W && bash $S/demo.sh >/tmp/w/demo1 2>&1 ); echo "$1 demo patched: $? $(tail -n 3 /tmp/w/demo1 | tr '\n' '|')"
git -C $W checkout -q -- .
[ "${2:-}" = nocheck ] && exit 0
git -C /repo apply $S/patch.diff
for p in $P ${3:-}; do ( cd /verif && timeout 900 ./check.sh $p quick >/tmp/w/check.log 2>&1 ); echo "$1 check $p: $? $(grep -h VIOLATION /tmp/w/check.log | tail -1)"; done
git -C /repo checkout -- .
