#!/usr/bin/env python3
"""plant.py SPEC.py ... : confirm a planted bug in a scratch copy and store it under /verif/seeded.
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (a Rust main program using futures_signals; exits non-zero when the property is violated)."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 when the property holds.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" HOME=/root
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp /opt/veriftools/crates.Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
futures-signals = { path = "$repo" }
futures-core = "0.3"
[workspace]
EOF
cd "$d" && cargo build --offline -q 2>build.log || { tail -30 build.log; exit 3; }
timeout 60 ./target/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g); W = "/tmp/plantwt"
    if not os.path.isdir(W): sh("cp -a /repo %s" % W)
    sh("git -C %s fetch -q /repo && git -C %s checkout -qf FETCH_HEAD && git -C %s clean -fdq -e target" % (W, W, W))
    out = os.path.join(V, "seeded", g["ID"]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755); open(out + "/main.rs", "w").write(g["MAIN"])
    a = sh(out + "/demo.sh", cwd=W)
    ok = True
    for f, old, new in g["EDITS"]:
        s = open(W + "/" + f).read()
        if s.count(old) != 1: print(g["ID"], "ANCHOR count", s.count(old), old[:60]); ok = False; break
        open(W + "/" + f, "w").write(s.replace(old, new))
    if not ok: shutil.rmtree(out); continue
    diff = sh("git -C %s diff" % W).stdout; open(out + "/patch.diff", "w").write(diff)
    bl = sh("git -C %s blame -s c255454..HEAD -- %s >/dev/null; true" % (W, g["EDITS"][0][0]))
    t = sh('RUSTFLAGS="-A mismatched_lifetime_syntaxes" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^error|FAILED|[1-9][0-9]* failed" | head -8', cwd=W)
    b = sh(out + "/demo.sh", cwd=W); sh("git -C %s checkout -qf ." % W)
    good = a.returncode == 0 and b.returncode not in (0, 3) and not t.stdout.strip()
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    print(g["ID"], "OK" if good else "BAD", "clean demo", a.returncode, a.stdout[-300:], "| patched demo", b.returncode, b.stdout[-300:], "| tests:", t.stdout[:500])
    if not good: shutil.rmtree(out)
