#!/bin/bash
# trybugs.sh [id...]: confirm each planted change in a scratch copy (builds, tests pass, demo 0/non-0),
# then run this property's quick check against /repo with the change applied, and undo it.
sc=/tmp/trybugs_repo
rm -rf /tmp/trybugs_repo; git clone -q /repo $sc
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
ids="$*"; [ -n "$ids" ] || ids="$(ls /verif/seeded)"
for b in $ids; do
  d=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $sc && git checkout -q -- . && bash $d/demo.sh >/tmp/demo0.log 2>&1); r0=$?
  git -C $sc apply $d/patch.diff || { echo "$b: PATCH FAILS"; continue; }
  (cd $sc && CARGO_TARGET_DIR=/tmp/trybugs_target cargo test --workspace --no-fail-fast --offline >/tmp/test.log 2>&1); rt=$?
  n=$(grep -E '^test .* ok$' /tmp/test.log | wc -l)
  (cd $sc && bash $d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
  git -C $sc checkout -q -- .
  if [ -z "$NOCHECK" ]; then
    git -C /repo apply $d/patch.diff; s=$(date +%s)
    out=$(cd /verif && timeout 900 ./check.sh $p quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
    echo "$b: demo clean=$r0 patched=$r1 tests rc=$rt ok=$n | $p rc=$rc violations=$v ($(( $(date +%s)-s )) s) $(echo "$out" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-180)"
    [ $rc = 1 ] || echo "$out" | tail -5
  else echo "$b: demo clean=$r0 patched=$r1 tests rc=$rt ok=$n"; fi
done
rm -rf /tmp/trybugs_repo /tmp/trybugs_target
