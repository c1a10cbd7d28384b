#!/usr/bin/env python3
"""mkseed.py <dir>...   makes patch.diff and demo.sh of planted bugs from <dir>/edit.py

edit.py defines property, needs, what, edits = [(file, old, new), ...], demo (Rust main, or shell
script when it starts with #!) and optionally features. Works in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys

SCRATCH = "/tmp/xprs-seed"
OUT = "/verif/seeded"
RUST = '''#!/bin/bash
# exit 0 when the property holds on this input
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/xprs-demo-%(id)s
mkdir -p /tmp/xprs-demo-%(id)s/src
cp "$here/demo.rs" /tmp/xprs-demo-%(id)s/src/main.rs
cp "$repo/Cargo.lock" /tmp/xprs-demo-%(id)s/Cargo.lock
cat > /tmp/xprs-demo-%(id)s/Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xprs = { path = "$repo"%(feat)s }
%(deps)s
[profile.dev]
debug = 0
[workspace]
T
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
CARGO_TARGET_DIR=/tmp/xprs-demo-%(id)s/target cargo build -q --offline --manifest-path /tmp/xprs-demo-%(id)s/Cargo.toml || exit 3
timeout %(limit)s /tmp/xprs-demo-%(id)s/target/debug/demo
rc=$?
rm -rf /tmp/xprs-demo-%(id)s
exit $rc
'''

for d in sys.argv[1:]:
    id = os.path.basename(d.rstrip("/"))
    ns = {}
    exec(open(os.path.join(d, "edit.py")).read(), ns)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", SCRATCH], check=True)
    for f, old, new in ns["edits"]:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d occurrences in %s of\n%s" % (id, s.count(old), f, old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", SCRATCH, "diff"], capture_output=True, text=True, check=True).stdout
    o = os.path.join(OUT, id)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    demo = ns["demo"].lstrip("\n")
    if demo.startswith("#!"):
        open(os.path.join(o, "demo.sh"), "w").write(demo.replace("@ID@", id))
    else:
        open(os.path.join(o, "demo.rs"), "w").write(demo)
        open(os.path.join(o, "demo.sh"), "w").write(RUST % {"id": id, "limit": ns.get("limit", 60), "feat": ns.get("features", ""), "deps": ns.get("deps", "")})
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print("made", id)
