#!/bin/bash
# Builds main.rs (beside this file) against the crates of /repo and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
egobox-doe = { path = "/repo/crates/doe", features = ["serializable"] }
egobox-gp = { path = "/repo/crates/gp", features = ["persistent"] }
egobox-moe = { path = "/repo/crates/moe", features = ["persistent"] }
egobox-ego = { path = "/repo/crates/ego", features = ["persistent"] }
linfa = { version = "0.8", default-features = false }
ndarray = { version = "0.16", features = ["rayon", "approx"] }
ndarray-npy = "0.9"
ndarray-rand = "0.15"
rand_xoshiro = { version = "0.6", features = ["serde1"] }
argmin = { version = "0.11.0", features = ["serde1"] }
serde_json = "1"
rayon = "1"
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" CARGO_PROFILE_RELEASE_OPT_LEVEL=1 cargo build --release --offline -q 2>"$tmp/log" || { tail -30 "$tmp/log"; exit 3; }
mkdir "$tmp/run" && cd "$tmp/run" && timeout 200 "$tmp/target/release/demo"
