#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CC HOST_CC HOST_CFLAGS
export CFLAGS="-DVP_EXTERN_HASH=h$(find extern -type f \( -name '*.c' -o -name '*.h' \) -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0r sha256sum | sha256sum | cut -c1-16)"
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scalable_mpc = { path = "$repo" }
bincode = "1.3.3"
futures-lite = "1.13.0"
ndarray = {version = "0.15.6", features = ["rayon", "matrixmultiply-threading"]}
num-traits = "0.2.15"
rand = "0.8.5"
rand_chacha = "0.3.1"
rayon = "1.7.0"
seahash = "4.1.0"
serde = { version = "1.0.163", features = ["derive"] }
tokio = { version = "1.28.2", features = ["full"] }
T
cd "$w" || exit 99
export CARGO_TARGET_DIR="$repo/target"
cargo build -q --offline || exit 98
timeout -k 5 ${DEMO_LIMIT:-120} "$repo/target/debug/demo"
