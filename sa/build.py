"""Builds the MIR dumper, and dumps the workspace crates of the repository.

The dump is keyed by a digest of the repository's Rust sources, manifests and
lock file and of the dumper: it is rebuilt whenever any of them differs.
"""
import fcntl
import hashlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IBCX_REPO", "/repo")
BUILD = os.environ.get("IBCX_BUILD", os.path.join(ROOT, "build"))
CRATES = ["ibcx_airdrop", "ibcx_core", "ibcx_interface", "ibcx_math", "ibcx_periphery", "ibcx_pool", "ibcx_test_querier", "ibcx_utils"]
PKGS = "ibcx-airdrop,ibcx-core,ibcx-periphery,ibcx-interface,ibcx-math,ibcx-pool,ibcx-utils,ibcx-test-querier"


class BuildError(Exception):
    pass


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, dirs, files in os.walk(repo):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules", "ts", "artifacts"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")) or f == "Cargo.lock":
                out.append(os.path.join(d, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()


def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def driver():
    d = os.path.join(ROOT, "driver")
    src = [os.path.join(d, "src", "main.rs"), os.path.join(d, "Cargo.toml"), os.path.join(d, "rustc-face.sh")]
    key = digest(src)
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "release", "mirdump")
    stamp = os.path.join(tgt, "stamp")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        env = dict(os.environ)
        env["CARGO_TARGET_DIR"] = tgt
        for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k, None)
        run(["cargo", "+nightly", "build", "--release", "--offline"], env=env, cwd=d)
        with open(stamp, "w") as f:
            f.write(key)
    return exe, key


def forget(tgt, everything=False):
    """Drop cargo's records of the workspace crates (both target layouts)."""
    if everything:
        subprocess.run(["rm", "-rf", tgt], check=True)
        return
    for sub in (".fingerprint", "build", "incremental"):
        d = os.path.join(tgt, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith(("ibcx-", "ibcx_", "test-querier-")):
                    subprocess.run(["rm", "-rf", os.path.join(d, n)], check=True)


def ensure():
    """Returns the directory of an up-to-date dump."""
    if os.environ.get("IBCX_DUMP"):
        return os.environ["IBCX_DUMP"]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe, dkey = driver()
        key = digest(sources()) + dkey
        out = os.path.join(BUILD, "dump")
        stamp = os.path.join(out, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out
        subprocess.run(["rm", "-rf", out], check=True)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env = dict(os.environ)
        tgt = os.path.join(BUILD, "target")
        env.update(
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            MIRDUMP_RUSTC=os.path.join(sysroot, "bin", "rustc"),
            MIRDUMP_OUT=out,
            MIRDUMP_WS=PKGS,
            CARGO_TARGET_DIR=tgt,
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0",
            RUSTC_WORKSPACE_WRAPPER=exe,
            RUSTC=os.path.join(ROOT, "driver", "rustc-face.sh"),
        )
        env.pop("RUSTC_WRAPPER", None)
        miss = None
        for attempt in range(2):
            # cargo's freshness cache would skip the dumper on a warm target
            forget(tgt, everything=attempt > 0)
            run(["cargo", "+nightly", "check", "--workspace", "--lib", "--locked", "--offline"], env=env, cwd=REPO)
            miss = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
            if not miss:
                break
        if miss:
            raise BuildError("not dumped: " + ", ".join(miss))
        with open(stamp, "w") as f:
            f.write(key)
        return out


if __name__ == "__main__":
    try:
        print(ensure())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
