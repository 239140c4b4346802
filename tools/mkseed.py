#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<id> from tools/seeds*.py and checks it in a
scratch copy of /repo (/tmp/seed/repo): applies, builds, passes the stable
tests, demo exits 0 without and nonzero with the patch; then runs the check on
/repo with the patch applied and undoes it."""
import importlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
SCR = "/tmp/seed/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = """#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it is broken
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
D=$REPO/target/debug
# link against the libraries the repository's build has just made
link() {
  local ext d c o x
  for d in "$D/deps" "$D"; do
    ext=()
    for x in %(crates)s; do [ -f "$d/lib$x.rlib" ] || continue 2; ext+=(--extern "$x=$d/lib$x.rlib"); done
    for c in "$D"/deps/libcosmwasm_std-*.rlib; do
      for o in "$D"/deps/libosmosis_std-*.rlib; do
        rustc --edition 2021 -A warnings --crate-name demo -o "$W/demo" "$HERE/demo.rs" -L dependency="$D/deps" \\
          "${ext[@]}" --extern cosmwasm_std="$c" --extern osmosis_std="$o" 2>"$W/err" && return 0
      done
    done
  done
  return 1
}
if [ -z "$DEMO_CARGO" ] && link; then "$W/demo"; exit; fi
# otherwise build everything the demonstration needs
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cosmwasm-std = { version = "1.5.2", features = ["stargate"] }
osmosis-std = "0.22.0"
%(deps)s
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR=$W/target
cd "$W" || exit 2
cargo run -q --offline
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def reset():
    subprocess.check_call("git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True, cwd=SCR)


def seeds():
    r = {}
    for f in sorted(os.listdir(os.path.join(ROOT, "tools"))):
        if f.startswith("seeds_") and f.endswith(".py"):
            r.update(importlib.import_module(f[:-3]).SEEDS)
    return r


def write_demo(s, d):
    if not os.path.isdir(d):
        return
    if "js" in s:
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: the property holds on this tree; nonzero: it is broken\nnode "$(cd "$(dirname "$0")" && pwd)/demo.js"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.js"), "w").write(s["js"])
        return
    crates = " ".join(n.replace("-", "_") for n, q in s["deps"])
    deps = "\n".join('%s = { path = "$REPO/%s" }' % (n, q) for n, q in s["deps"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(deps=deps, crates=crates))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])


BUILD = "cargo build --workspace --locked --offline && cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-run --locked --offline"


def main():
    S = seeds()
    if "-d" in sys.argv:
        for i in sorted(S):
            write_demo(S[i], os.path.join(ROOT, "seeded", i))
        return
    ids = sys.argv[1:] or sorted(S)
    subprocess.run("git fetch -q /repo HEAD", shell=True, cwd=SCR)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        s = S[i]
        reset()
        d = os.path.join(ROOT, "seeded", i)
        os.makedirs(d, exist_ok=True)
        for path, old, new in s["edits"]:
            p = os.path.join(SCR, path)
            t = open(p).read()
            n = t.count(old)
            assert n == 1, (i, path, n, old)
            open(p, "w").write(t.replace(old, new))
        pa = sh("git diff", SCR).stdout
        write_demo(s, d)
        open(os.path.join(d, "patch.diff"), "w").write(pa)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # with the patch
        r = sh("cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline 2>&1 | grep -E '^test |^error'", SCR)
        okt = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        bad = [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        sh(BUILD, SCR)
        d1 = sh("bash %s/demo.sh" % d, SCR)
        reset()
        sh(BUILD, SCR)
        t0 = time.time()
        d0 = sh("bash %s/demo.sh" % d, SCR)
        if time.time() - t0 > 20:
            print("  slow demo: %.0f s" % (time.time() - t0))
        st = "tests ok=%d bad=%s demo clean=%d patched=%d" % (len(okt), bad[:3], d0.returncode, d1.returncode)
        # the check
        a = sh("git apply %s/patch.diff" % d, SCR)
        try:
            ck = subprocess.run("python3 check.py %s" % s["property"], shell=True, cwd=ROOT, env=dict(ENV, IBCX_REPO=SCR, IBCX_BUILD="/tmp/seed/build", IBCX_EVID="/tmp/seed/evid"), capture_output=True, text=True)
        finally:
            reset()
        print(i, st, "| apply", a.returncode, "check", ck.returncode, (ck.stdout.strip().splitlines() or [""])[0][:300], flush=True)
        if d0.returncode or not d1.returncode:
            print("  CLEAN:", d0.stderr[-1500:], "\n  PATCHED:", d1.stderr[-300:])
    reset()


if __name__ == "__main__":
    main()
