#!/usr/bin/env python3
"""mkseed.py ID PROP: makes /verif/seeded/ID from the edit in /tmp/seedwork (a copy of /repo), whose diff
becomes patch.diff; main.rs is read from stdin."""
import json, os, subprocess, sys
DEMO = r'''#!/bin/bash
# Builds main.rs against the xprs in the current directory and runs it: exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
xprs = { path = "$repo", default-features = false, features = [@FEATURES@] }
miette = { version = "7.2.0", features = ["fancy-no-backtrace"] }
T
export REPO="$repo" PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" RUSTUP_TOOLCHAIN=@TOOLCHAIN@
unset RUSTFLAGS
cd "$w" && timeout -k 5 200 cargo build -q --offline 2> "$w/err" || { tail -30 "$w/err"; exit 4; }
timeout -k 5 60 "$w/t/debug/demo"
'''
TC = {'stable': 'stable-x86_64-unknown-linux-gnu', 'nightly': 'nightly-2026-08-21-x86_64-unknown-linux-gnu'}


def make(sid, prop, needs, breaks, main, patch, features=('pemdas', 'compile-time-optimizations'), tc='stable', repl=False):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    s = DEMO.replace('@FEATURES@', ', '.join('"%s"' % f for f in features)).replace('@TOOLCHAIN@', TC[tc])
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(main)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
