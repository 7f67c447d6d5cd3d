#!/bin/bash
# mkseed.sh ID PROPERTY CRATES "needs" "breaks" < main.rs : takes /repo's current diff as the patch, then reverts it
id=$1; p=$2; crates=$3; d=/verif/seeded/$id; mkdir -p $d
cat > $d/main.rs
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
cp /opt/vp/Cargo.lock $d/Cargo.lock
python3 - "$d" "$p" "$4" "$5" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
deps=""; for c in $crates; do n=${c##*/}; case $n in cryptography) k=linkspace-cryptography;; argon2-identity) k=linkspace-argon2-identity;; *) k=$n;; esac; deps="$deps$k = { path = \"\$R/crates/$c\" }\n"; done
cat > $d/demo.sh <<D
#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Runs in the repository root.
here=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
t=\$(mktemp -d) || exit 3
trap 'rm -rf "\$t"' EXIT
mkdir -p "\$t/src"; cp "\$here/main.rs" "\$t/src/main.rs"; cp "\$here/Cargo.lock" "\$t/Cargo.lock"
cat > "\$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
$(printf "$deps")
T
export RUSTUP_TOOLCHAIN=nightly-2023-11-04 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="\$t/target"
cd "\$t" && cargo build --offline -q 2>build.log || { tail -30 build.log; exit 3; }
timeout 60 ./target/debug/demo
D
