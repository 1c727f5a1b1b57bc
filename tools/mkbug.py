"""mkbug(id, prop, edits, demo, needs, breaks, modes): writes seeded/<id>/ from textual edits of a clean scratch clone of /repo."""
import json
import os
import subprocess

REPO = os.environ.get("BUGREPO", "/tmp/w/mk")   # a scratch clone of /repo

DEMO = r'''#!/bin/bash
# Builds the library from the working tree and runs demo.rs against it (%(modes)s).
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.90.0
repo=${REPO:-$PWD}
t=$(mktemp -d /tmp/demo.XXXXXX)
rc=0
for mode in %(modes)s; do
  case $mode in
    debug) f="-C opt-level=0 -C debug-assertions=on" ;;
    release) f="-C opt-level=3 -C debug-assertions=off" ;;
  esac
  rustc --edition 2021 --crate-type rlib --crate-name ethnum --cap-lints allow $f "$repo/src/lib.rs" -o "$t/libethnum.rlib" || rc=1
  rustc --edition 2021 --cap-lints allow $f "$here/demo.rs" --extern "ethnum=$t/libethnum.rlib" -o "$t/demo" || rc=1
  timeout 120 "$t/demo" || rc=1
done
find "$t" -delete
exit $rc
'''

DEMO_SERDE = r'''#!/bin/bash
# Builds a small crate with a path dependency on the working tree (feature serde) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true
repo=${REPO:-$PWD}
t=$(mktemp -d /tmp/demo.XXXXXX)
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ethnum = { path = "$repo", features = ["serde"] }
serde = { version = "1", default-features = false }
[workspace]
X
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline --manifest-path "$t/Cargo.toml"
rc=$?
find "$t" -delete
exit $rc
'''


def mkbug(id, prop, edits, demo, needs, breaks, modes="debug", serde=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "diff", "--quiet"]).returncode == 0
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SERDE if serde else DEMO % {"modes": modes if isinstance(modes, str) else " ".join(modes)})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
