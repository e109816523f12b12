"""Build everything a check needs, from the current sources."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
PASSES = "function(lower-expect,simplifycfg,sroa,scalarizer<load-store>,loop-simplify,lcssa)"


class Built:
    pass


def sh(cmd, cwd, **env):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", **env)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        print("BUILD FAILED: " + " ".join(cmd))
        sys.exit(2)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def find_opt():
    rustup = os.environ.get("RUSTUP_HOME") or os.path.expanduser("~/.rustup")
    out = subprocess.run(["rustc", "--print", "sysroot"], env=dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN),
                         stdout=subprocess.PIPE, text=True).stdout.strip()
    for pat in (out + "/lib/rustlib/*/bin/opt", rustup + "/toolchains/stable*/lib/rustlib/*/bin/opt"):
        g = glob.glob(pat)
        if g:
            return g[0]
    print("BUILD FAILED: no LLVM opt in the Rust toolchain")
    sys.exit(2)


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(HERE, "engine"),
       CARGO_TARGET_DIR=os.path.join(OUT, "engine"))


def build_ir():
    t = os.path.join(OUT, "ir")
    sh(["cargo", "rustc", "--offline", "-q", "--crate-type", "cdylib", "--", "--cfg", "vh_ir", "--emit=llvm-ir",
        "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], os.path.join(HERE, "harness"), CARGO_TARGET_DIR=t)
    ll = os.path.join(t, "debug/deps/harness.ll")
    sh([find_opt(), "-passes=" + PASSES, "-S", ll, "-o", os.path.join(OUT, "harness.ll")], HERE)


def build_replay():
    sh(["cargo", "build", "--offline", "-q"], os.path.join(HERE, "replay"), CARGO_TARGET_DIR=os.path.join(OUT, "replay"))


def build():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "macros"), os.path.join(HERE, "harness"),
                  os.path.join(HERE, "stubs"), os.path.join(HERE, "replay"), os.path.join(HERE, "engine"))
    h += hashlib.sha256(open(os.path.join(REPO, "Cargo.toml"), "rb").read()).hexdigest()
    stamp = os.path.join(OUT, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        for d in ("harness", "replay"):  # never trust timestamps alone
            os.utime(os.path.join(HERE, d, "src", "lib.rs" if d == "harness" else "main.rs"))
        with cf.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(f) for f in (build_engine, build_ir, build_replay)]:
                f.result()
        open(stamp, "w").write(h)
    b = Built()
    b.dir = OUT
    b.hash = h
    b.irsym = os.path.join(OUT, "engine/release/irsym")
    b.ll = os.path.join(OUT, "harness.ll")
    b.replay = os.path.join(OUT, "replay/debug/replay")
    lock.close()
    return b


if __name__ == "__main__":
    build()
