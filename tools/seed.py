#!/usr/bin/env python3
"""seed.py FILE.py [ids...]: turn bug descriptions into seeded/<id>/ after confirming them in a scratch copy.
Each description: dict(id, prop, file edits [(file, old, new)], demo (body of main.rs), needs, breaks, hooks=False)."""
import sys, os, subprocess, json, shutil, importlib.util
V = "/verif"; SW = "/tmp/seedwork"
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
# builds main.rs against the crates in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dynamic_expressions = { path = "$repo/dynamic_expressions", default-features = false }
symbolic_regression = { path = "$repo/symbolic_regression", default-features = false, features = ["bench"] }
ndarray = "0.17"
num-traits = "0.2"
fastrand = "2"
[profile.dev]
debug = false
T
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="--cfg verif_hooks"
cargo build --offline -q || exit 2
timeout 200 ./target/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
if not os.path.exists(SW + "/HEAD") or open(SW + "/HEAD").read() != head:
    if os.path.exists(SW): shutil.rmtree(SW)
    os.makedirs(SW); sh(f"cp -a /repo {SW}/repo"); open(SW + "/HEAD", "w").write(head)
R = SW + "/repo"
stable = json.load(open("/opt/vp/BASELINE.json"))
def tests():
    env = {**os.environ, "HOME": "/root", "RUSTUP_TOOLCHAIN": "nightly-2025-12-19", "CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_INCREMENTAL": "1", "PROPTEST_RNG_SEED": "20251219", "PROPTEST_DISABLE_FAILURE_PERSISTENCE": "1"}
    sh(f"cd {R} && RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 cargo test --workspace --all-features --no-run --offline")
    r = subprocess.run("timeout 60 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=R, capture_output=True, text=True, env=env, timeout=900)
    bad = [l for l in r.stdout.splitlines() if l.endswith("FAILED") or "error: " in l]
    if r.returncode == 124: bad.append("timeout")
    if "error" in r.stderr and r.returncode: bad += [l for l in r.stderr.splitlines() if l.startswith("error")][:5]
    return bad
ids = sys.argv[2:]
for b in m.BUGS:
    if ids and b["id"] not in ids: continue
    sh(f"git -C {R} checkout -q -- .")
    ok = True
    for f, old, new in b["edits"]:
        p = f"{R}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(b["id"], "EDIT: occurrences", s.count(old), "of", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh(f"git -C {R} diff").stdout
    d = f"{V}/seeded/{b['id']}"; 
    bad = tests()
    if bad: print(b["id"], "REJECTED by tests:", bad[:4]); continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.sh", "w").write(DEMO.replace("ndarray = ", 'symbolic_regression_wasm = { path = "$repo/web/wasm", default-features = false }\nndarray = ', 1) if b.get("wasm") else DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["demo"].lstrip()); json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r1 = sh(f"bash {d}/demo.sh", cwd=R)
    sh(f"git -C {R} checkout -q -- ."); 
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    good = r0.returncode == 0 and r1.returncode not in (0, 2, 124)
    print(b["id"], "KEPT" if good else "DEMO PROBLEM", "clean rc", r0.returncode, "bug rc", r1.returncode)
    if not good:
        print(r0.stderr[-1500:] if r0.returncode else (r1.stdout + r1.stderr)[-600:]); shutil.rmtree(d)
    sys.stdout.flush()
