#!/bin/bash
# Compiles a copy of the sources with one more test module, and runs that module.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-02 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=${ASSERTIONS:-true} CARGO_TARGET_DIR="$W/target" PATH=/root/.cargo/bin:$PATH
tar -C /repo --exclude=./target --exclude=./.git --exclude=./tests/_log -cf - . | tar -C "$W" -xf -
mkdir -p "$W/target"
cp "$here/vp_demo.rs" "$W/openraft/src/vp_demo.rs"
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$W/openraft/src/lib.rs"
cd "$W" && cargo test --offline -p openraft --lib vp_demo -- --nocapture > "$W/log" 2>&1
rc=$?
grep -q 'test result: ok. [1-9]' "$W/log" || { tail -60 "$W/log"; exit 1; }
exit $rc
