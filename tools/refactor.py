#!/usr/bin/env python3
"""refactor.py [NAME...]: behaviour-preserving edits (tools/refs_*.py) on a scratch copy;
every check must stay quiet."""
import importlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
SCR = os.environ.get("SCR", "/tmp/seed/repo2")
if not os.path.isdir(SCR):
    subprocess.check_call(["cp", "-a", "/repo", SCR])


def reset():
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -- . && git reset -q --hard FETCH_HEAD", shell=True, cwd=SCR)


R = {}
for f in sorted(os.listdir(os.path.join(ROOT, "tools"))):
    if f.startswith("refs_") and f.endswith(".py"):
        R.update(importlib.import_module(f[:-3]).REFS)
names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(R)
tests = "-t" in sys.argv
tot = 0
for n in names:
    reset()
    for path, old, new in R[n]:
        p = os.path.join(SCR, path)
        t = open(p).read()
        assert t.count(old) == 1, (n, path, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    if tests:
        r = subprocess.run("cargo test -p ibcx-core -p ibcx-airdrop -p ibcx-periphery -p ibcx-interface -p ibcx-math --lib --offline 2>&1 | grep -E '^error|FAILED|^test result' | head -8", shell=True, cwd=SCR, capture_output=True, text=True)
        print(n, "TESTS", "bad " + r.stdout if "FAILED" in r.stdout or "error" in r.stdout else "ok")
    r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/runall.py"), "--repo", SCR], capture_output=True, text=True)
    ok = r.returncode == 0
    tot += not ok
    print("%-28s %s" % (n, "quiet" if ok else "ALARMS"), flush=True)
    if not ok:
        print("   " + "\n   ".join((r.stdout + r.stderr[-1500:]).splitlines()[-14:]))
reset()
print(tot, "noisy of", len(names))
