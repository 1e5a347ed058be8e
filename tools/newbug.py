"""Helper for writing planted bugs: bug(id, property, needs, breaks, edits, demo, deps)."""
import os, subprocess, json, tempfile, shutil
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = r'''#!/bin/bash
# Builds demo.rs (beside this script) against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%DEPS%
T
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet 2> build.log || { tail -30 build.log; exit 3; }
exec_timeout=60
timeout $exec_timeout ./target/debug/demo
'''
PATHS = {"iri": 'rdftk_iri = { path = "$repo/rdftk_iri" }', "core": 'rdftk_core = { path = "$repo/rdftk_core" }',
         "io": 'rdftk_io = { path = "$repo/rdftk_io" }', "names": 'rdftk_names = { path = "$repo/rdftk_names" }',
         "json": 'serde_json = "1"', "objio": 'objio = "0.1"', "uuid":'unique_id = "0.1"'}

def bug(id, prop, needs, breaks, edits, demo, deps=("iri",)):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"], stdout=subprocess.DEVNULL)
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            # lines of the original repository only
            base = subprocess.check_output(["git", "-C", w + "/r", "show", "686a6da:" + f], text=True)
            gone = [l for l in old.splitlines() if l not in new.splitlines()]
            if gone and not any(l.strip() in base for l in gone): print("NOTE", id, f, "changes no original line:", gone)
        out = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("%DEPS%", "\n".join(PATHS[x] for x in deps)))
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
