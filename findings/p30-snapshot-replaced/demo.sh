#!/bin/bash
# Compiles a copy of the sources with one more test in the RocksDB store, and runs that test.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-02 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 PATH=/root/.cargo/bin:$PATH TMPDIR="$W"
tar -C /repo --exclude=./target --exclude=./.git --exclude=./tests/_log -cf - . | tar -C "$W" -xf -
cp "$here/vp_demo.rs" "$W/stores/rocksstore/src/vp_demo.rs"
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$W/stores/rocksstore/src/lib.rs"
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo test --offline -p openraft-rocksstore --lib vp_demo -- --nocapture > "$W/log" 2>&1
rc=$?
grep -q 'test result: ok. [1-9]' "$W/log" || { tail -60 "$W/log"; exit 1; }
exit $rc
