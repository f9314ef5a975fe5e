#!/bin/bash
# builds demo.rs against the rsasl crate in the current directory and runs it: exit 0 = property holds here
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/demo.rs" "$w/src/main.rs"; [ -f "$here/support.rs" ] && cp "$here/support.rs" "$w/src/"
cp "$repo/Cargo.lock" "$w/"
feat='"config_builder","provider","provider_base64","unstable_custom_mechanism","plain","login","anonymous","external","xoauth2","oauthbearer","scram-sha-1","scram-sha-2"'
[ -f "$here/features" ] && feat=$(cat "$here/features")
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rsasl = { path = "$repo", default-features = false, features = [$feat] }
hmac = "0.12"
sha1 = "0.10"
sha2 = "0.10"
digest = "0.10"
pbkdf2 = { version = "0.12", default-features = false }
base64 = "0.22"
T
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/t" timeout 280 cargo run -q --offline
rc=$?
echo "demo exit $rc"; exit $rc
