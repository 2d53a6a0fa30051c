#!/bin/bash
# builds the small program beside this file against /repo's library and runs it
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_RESOLVER_LOCKFILE_PATH
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/demo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
validate-btc-header = { path = "/repo" }
num-bigint = "0.4"
num-traits = "0.2"
bellpepper-core = { version = "0.4.0", default-features = false }
bellpepper = { version = "0.4.0", default-features = false }
nova-snark = "0.35.0"
ff = { version = "0.13", features = ["derive"] }
T
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build -q --offline || exit 3
"$dir/target/debug/demo"
