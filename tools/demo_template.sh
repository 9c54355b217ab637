#!/bin/bash
# Builds main.rs against the built view of /repo and runs it: exit 0 if the property's example holds.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=/tmp/seeded_demo
mkdir -p $d/src
cp "$here/main.rs" $d/src/main.rs
cp /opt/vp/ws/Cargo.lock $d/Cargo.lock
ws=/opt/vp/ws
{
cat <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[profile.dev]
opt-level = 1
debug = false
[dependencies]
mpc-core = { path = "/opt/vp/ws/mpc-core" }
mpc-net = { path = "/opt/vp/ws/mpc-net", features = ["local"] }
ark-bn254 = "0.6"
ark-ff = "0.6"
ark-ec = "0.6"
ark-poly = "0.6"
rand = "0.8"
rand_chacha = "0.3"
eyre = "0.6"
rayon = "1"
T
if grep -q "co_groth16\|co_plonk\|co_circom_types" "$here/main.rs"; then
cat <<'T'
co-groth16 = { path = "/opt/vp/ws/co-circom/co-groth16", features = ["verifier"] }
co-plonk = { path = "/opt/vp/ws/co-circom/co-plonk" }
co-circom-types = { path = "/opt/vp/ws/co-circom/co-circom-types" }
circom-types = { package = "taceo-circom-types", version = "0.3.1", features = ["plonk"] }
serde_json = "1"
T
fi
} > $d/Cargo.toml
cd $d && CARGO_TARGET_DIR=$d/target timeout 280 cargo run -q --offline
rc=$?
rm -rf /tmp/seeded_demo/src
[ -n "$DEMO_KEEP" ] || rm -rf /tmp/seeded_demo
exit $rc
