#!/bin/bash
# Runs demo.rs (beside this file) as a unit test of the part of the crate that builds here, in a scratch copy of the
# build workspace: exit 0 if it passes on the current tree.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/vp-demo-core
cp -a /opt/vp/ws /tmp/vp-demo-core/
cd /tmp/vp-demo-core/ws || exit 2
printf '\n#[cfg(test)]\n#[path = "%s/demo.rs"]\nmod planted_demo;\n' "$here" >> @LIB@
export RUSTUP_TOOLCHAIN=nightly-2024-12-30 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/vp-demo-core/ws/target
unset DATABASE_URL RUSTFLAGS
timeout 280 cargo test --offline --workspace --tests planted_demo -- --test-threads 1 > /tmp/vp-demo-core/log 2>&1
rc=$?
tail -n 25 /tmp/vp-demo-core/log
grep -q "test result: ok. [1-9]" /tmp/vp-demo-core/log || rc=1
cd /
rm -rf /tmp/vp-demo-core
exit $rc
