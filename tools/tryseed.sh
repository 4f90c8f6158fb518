#!/bin/bash
# tryseed.sh ID: confirm a planted bug in a scratch copy: demo 0 / builds / tests pass / demo nonzero
id=$1; d=/verif/seeded/$id; c=/tmp/sd/$id
mkdir -p /tmp/sd; rm -rf "$c"; cp -a /repo "$c"; cd "$c" || exit 2
bash "$d/demo.sh" > /tmp/sd/$id.log 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
export CARGO_NET_OFFLINE=true
cargo test --workspace --offline -- --test-threads 8 > /tmp/sd/$id.test.log 2>&1; rt=$?
bash "$d/demo.sh" >> /tmp/sd/$id.log 2>&1; r1=$?
echo "$id: clean=$r0 tests=$rt patched=$r1"
rm -rf "$c"
