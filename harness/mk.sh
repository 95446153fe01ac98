#!/bin/bash
# mk.sh <pid> prim|full : create the skeleton of a harness crate
c=$1; d=/verif/harness/$c; mkdir -p $d/src
dep='ringhopper-primitives = { path = "/repo/src/ringhopper-primitives" }'
[ "$2" = full ] && dep='ringhopper = { path = "/repo/src/ringhopper" }'
cat > $d/Cargo.toml <<E
[package]
name = "$c"
version = "0.1.0"
edition = "2021"

[lib]
crate-type = ["cdylib"]

[[bin]]
name = "replay_$c"
path = "src/main.rs"

[dependencies]
$dep

[workspace]

[profile.release]
opt-level = 1
debug = "line-tables-only"
panic = "abort"
lto = "fat"
codegen-units = 1
overflow-checks = true
debug-assertions = true

[lints.rust]
unexpected_cfgs = "allow"
E
echo '{"bounds":{}}' > $d/meta.json
cat > $d/src/main.rs <<'E'
include!("lib.rs");
fn main() { nd::replay(&[LIST_S, LIST_K]) }
E
echo '{"bounds":{}}' > $d/meta.json
cp /repo/Cargo.lock $d/Cargo.lock
