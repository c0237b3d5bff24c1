#!/usr/bin/env python3
"""plant.py BUGS.py [ID…]: turn bug descriptions into seeded/<id>/ and confirm each one in a scratch copy.
BUGS.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust source)]."""
import sys, os, subprocess, json, runpy, shutil
SC = "/tmp/sc"; SEED = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=SC + "/target")
DEMO = '''#!/bin/bash
# Builds demo.rs against the crates in the current directory and runs it: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
p=$repo/target/vp-demo/%s
mkdir -p "$p/src" || exit 3
cp "$here/demo.rs" "$p/src/main.rs" || exit 3
cp Cargo.lock "$p/Cargo.lock" 2>/dev/null
cat > "$p/Cargo.toml" <<T
[package]
name = "demo-%s"
version = "0.1.0"
edition = "2021"
[dependencies]
websocket-base = { path = "$repo/websocket-base" }
websocket = { path = "$repo" }
hyper = "0.10"
bytes = "0.4"
futures = "0.1"
tokio-codec = "0.1"
tokio-io = "0.1"
unicase = "1"
[profile.dev]
debug = 0
[workspace]
T
export CARGO_TARGET_DIR=$repo/target/vp-demo/target
export RUSTFLAGS=-Awarnings DEMO_DIR=$here
cd "$p" && cargo build --offline -q || exit 2
exec timeout 60 "$CARGO_TARGET_DIR/debug/demo-%s"
'''
def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    if not os.path.isdir(SC): subprocess.check_call(["cp", "-a", "/repo", SC])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "fetch", "-q", "/repo", head]); sh(["git", "checkout", "-q", "-f", head])
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in bugs:
        if only and b["id"] not in only: continue
        sh(["git", "checkout", "-q", "--", "."])
        d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % ((b["id"],) * 3)); os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(["bash", d + "/demo.sh"])
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f); s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh(["cargo", "test", "--workspace", "--features", "nightly", "--no-fail-fast", "--offline", "--", "--test-threads", "8"])
        bad = [l for l in t.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
        npass = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
        r1 = sh(["bash", d + "/demo.sh"])
        ok = r0.returncode == 0 and r1.returncode not in (0, 2, 3) and not bad and t.returncode == 0
        print(b["id"], "OK" if ok else "BAD", "clean demo rc", r0.returncode, "bug demo rc", r1.returncode, "tests", t.returncode, npass, bad[:3])
        if not ok:
            print("--- clean:", r0.stdout[-1500:]); print("--- bug:", r1.stdout[-1500:])
            if t.returncode: print(t.stdout[-800:])
        sh(["git", "checkout", "-q", "--", "."])
main()
