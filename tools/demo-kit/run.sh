#!/bin/bash
# run.sh SCENARIO.rs SCRATCH: compiles a copy of /repo's tree in SCRATCH with the scenario as a test, and runs it.
# Exit 0: the scenario holds. The copy exists because cargo cannot load /repo itself offline (two git dependencies).
set -eu
SCEN="$(realpath "$1")"; S="$(realpath "$2")"; K="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$S/target"
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
R="${DBC_REPO:-/repo}"
mkdir -p "$S/src" "$S/target/debug"
tar -C "$R" -cf - --exclude=.git --exclude=target --exclude=node_modules Cargo.toml programs dynamic-bonding-curve-sdk libs idls | tar -C "$S/src" -xf -
for d in .fingerprint build deps; do
    [ -d "/opt/vp/mirror/target/debug/$d" ] && cp -a "/opt/vp/mirror/target/debug/$d" "$S/target/debug/"
done
cp /opt/vp/mirror/src/Cargo.lock "$S/src/Cargo.lock"
P="$S/src/programs/dynamic-bonding-curve"
sed -i -E "s#^(protocol-zap|unchecked_account)[ ]*=.*git.*#\1 = { path = \"$K/shims/\1\" }#" "$P/Cargo.toml"
sed -i 's#^\[dev-dependencies\]#&\ndynamic-bonding-curve-sdk = { path = "../../dynamic-bonding-curve-sdk" }#' "$P/Cargo.toml"
mkdir -p "$P/tests/demo"
cp "$K"/sim/*.rs "$P/tests/demo/"
cp "$SCEN" "$P/tests/demo/scenario.rs"
sed -i -E 's/\bspl_token(_2022)?::/crate::spl_token\1::/g; s/crate::crate::/crate::/g' "$P"/tests/demo/*.rs
cat > "$P/tests/demo/main.rs" <<'M'
#![allow(dead_code, unused)]
pub use anchor_spl::token::spl_token;
pub use anchor_spl::token_2022::spl_token_2022;
mod abi;
mod abuse;
mod case;
mod foreign;
mod gen;
mod help;
mod hist;
mod mig;
mod mocks;
mod refmath;
mod refmodel;
mod released;
mod sim;
mod tape;
mod vary;
mod world;
mod scenario;
mod props { pub mod trade { pub fn real_curve(_: &mut crate::case::Case, _: &crate::abi::ConfigView, _: u128, _: u128, _: bool, _: bool, _: u64, _: u64) {} } }
M
cd "$S/src"
cargo test --offline -q -p dynamic-bonding-curve --test demo -- --nocapture
