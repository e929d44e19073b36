#!/usr/bin/env python3
"""Writes seeded/<id>/ from a small description: edits (file, old, new), the demonstration's main.rs, and the meta data.
Used as a library: new(id, property, needs, breaks, edits, main)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("SW", "/tmp/sw")   # scratch copy of /repo, made by the caller
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Builds and runs main.rs against it, in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target
mkdir "$t/src" && cp "$d/main.rs" "$t/src/" && [ -f "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
futures = { path = "$r/futures", features = ["thread-pool", "unstable", "bilock", "write-all-vectored"] }
EOF
cd "$t" && cargo build -q --offline 2>build.log || { cat build.log; exit 99; }
timeout 120 ./target/debug/demo
'''
def new(id, prop, needs, breaks, edits, main):
    subprocess.run(["git", "-C", SW, "checkout", "-q", "--", "."], check=True)
    for f, old, neu in edits:
        p = f"{SW}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, neu))
    diff = subprocess.run(["git", "-C", SW, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", SW, "checkout", "-q", "--", "."], check=True)
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
PRE = '''#![allow(unused)]
use std::{future::Future, pin::Pin, task::{Context, Poll, Waker, Wake}, sync::{Arc, atomic::{AtomicUsize, Ordering::SeqCst}}};
struct C(AtomicUsize);
impl C { fn n(&self) -> usize { self.0.load(SeqCst) } }
impl Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
fn counter() -> (Waker, Arc<C>) { let c = Arc::new(C(AtomicUsize::new(0))); (Waker::from(c.clone()), c) }
'''
