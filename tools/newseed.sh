#!/bin/bash
# newseed.sh ID PROPERTY "needs" "breaks" : take the uncommitted change in /tmp/seed/repo (a copy of
# /repo) as a planted bug, with /tmp/seed/main.rs (and /tmp/seed/drive.py, if any) as its demonstration; verify it
set -e
ID=$1; D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/seed/repo diff > $D/patch.diff
cp /tmp/seed/main.rs $D/main.rs
rm -f $D/drive.py
[ -f /tmp/seed/drive.py ] && cp /tmp/seed/drive.py $D/drive.py
FE=${FEATURES:-}
cat > $D/demo.sh <<'X'
#!/bin/bash
# builds main.rs beside this file against the current directory's liso
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
liso = { path = "$R", features = [FEATS] }
libc = "0.2"
[workspace]
Y
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" || exit 1
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-A warnings"
cargo build --offline -q || exit 1
if [ -f "$D/drive.py" ]; then
  timeout 60 python3 "$D/drive.py" "$T/target/debug/demo"
else
  timeout 60 "$T/target/debug/demo"
fi
X
sed -i "s/FEATS/$FE/" $D/demo.sh
chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
# verify
[ -s $D/patch.diff ] || { echo EMPTY PATCH; exit 1; }
git -C /tmp/seed/repo checkout -q -- .
(cd /tmp/seed/repo && $D/demo.sh >/tmp/seed/clean.log 2>&1) && echo "clean: demo ok" || { echo "clean: DEMO FAILS"; tail -5 /tmp/seed/clean.log; }
git -C /tmp/seed/repo apply $D/patch.diff
(cd /tmp/seed/repo && $D/demo.sh >/tmp/seed/bug.log 2>&1) && echo "bug: DEMO PASSES (bad)" || { echo "bug: demo fails (good):"; tail -3 /tmp/seed/bug.log; }
(cd /tmp/seed/repo && timeout 600 cargo test --offline --lib 2>&1 | grep -a "test result" | head -3)
git -C /tmp/seed/repo checkout -q -- .
