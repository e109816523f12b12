#!/usr/bin/env python3
"""Make and confirm a planted bug: tools/plant.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN)
Works in a scratch copy of /repo; keeps seeded/ID only if the stable tests pass with it and the demonstration tells the trees apart."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant-work"
DEMO = '''#!/bin/bash
# demonstration: a small program against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nsneturfahi = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
(cd "$d" && timeout 280 cargo run --offline -q)
rc=$?
rm -rf "$d"
exit $rc
'''
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
run(["git", "checkout", "-q", "-f", subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()], W)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
ok = True
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    out = os.path.join(HERE, "seeded", s["ID"])
    run(["git", "checkout", "-q", "--", "."], W)
    tmp = "/tmp/plant-demo-" + s["ID"]
    os.makedirs(tmp, exist_ok=True)
    open(tmp + "/main.rs", "w").write(s["MAIN"]); open(tmp + "/demo.sh", "w").write(DEMO); os.chmod(tmp + "/demo.sh", 0o755)
    a = run(["bash", tmp + "/demo.sh"], W)
    for f, old, new in s["EDITS"]:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "diff"], W).stdout
    b = run(["bash", tmp + "/demo.sh"], W)
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target")
    tst = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], W, env=e)
    fails = [l for l in tst.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
    good = a.returncode == 0 and b.returncode != 0 and tst.returncode == 0
    print(f"{s['ID']}: unpatched demo {a.returncode}, patched demo {b.returncode}, tests {tst.returncode} {len(fails)} failed -> {'kept' if good else 'REJECTED'}")
    if not good:
        ok = False
        print(a.stdout[-600:] if a.returncode else "", b.stdout[-600:] if not b.returncode else "", "\n".join(fails[:8]), tst.stdout[-800:] if not fails and tst.returncode else "")
    else:
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(tmp + "/main.rs", out); shutil.copy(tmp + "/demo.sh", out)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    run(["git", "checkout", "-q", "--", "."], W)
    shutil.rmtree(tmp)
sys.exit(0 if ok else 1)
