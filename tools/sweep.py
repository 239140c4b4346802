#!/usr/bin/env python3
"""sweep.py [TRANSFORM...]: apply one kind of behaviour-preserving rewrite
(tools/rewriter) to every place in the non-test Rust source at once, on a
scratch copy, leaving out the places where the result does not compile; every
check must stay quiet.  On an alarm, the files responsible are searched for."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SCR", "/tmp/seed/repo_sweep")
TOOL = os.environ.get("REWRITER", "/tmp/seed/rwt/release/rewriter")
ALL = re.findall(r'^            \("(\w+)", Expr|\| \("(\w+)", Expr|^            "(\w+)" => ', open(os.path.join(ROOT, "tools/rewriter/src/main.rs")).read(), re.M)
ALL = list(dict.fromkeys(x for y in ALL for x in y if x)) + ["let_rename", "let_closure", "swap_lets", "tuple_lets", "nest_rest"]
PKGS = ["ibcx-core", "ibcx-airdrop", "ibcx-periphery", "ibcx-interface", "ibcx-math", "ibcx-pool", "ibcx-utils"]
if not os.path.isdir(SCR):
    subprocess.check_call(["cp", "-a", "/repo", SCR])


def reset():
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -- . && git reset -q --hard FETCH_HEAD", shell=True, cwd=SCR)


def files():
    out = subprocess.check_output(["git", "ls-files", "contracts", "packages"], cwd=SCR, text=True).split()
    return [f for f in out if f.endswith(".rs") and "/tests/" not in f and "/test/" not in f and "test-querier" not in f and not f.endswith("test.rs") and "/examples/" not in f and "/bin/" not in f]


def rewrite(t, f, off):
    p = os.path.join(SCR, f)
    r = subprocess.run([TOOL, t, p, ",".join(map(str, sorted(off)))], capture_output=True, text=True)
    if r.returncode:
        print("  cannot rewrite", f, r.stderr[-200:])
        return 0
    open(p, "w").write(r.stdout)
    return int(r.stderr.strip().splitlines()[-1])


def inner(text, at):
    """the innermost marked place around a byte offset"""
    st = []
    for m in re.finditer(rb"/\*<(/?)(\d+)>\*/|/\*</(\d+)>\*/", text):
        if m.start() > at:
            break
        if m.group(0).startswith(b"/*</"):
            if st:
                st.pop()
        else:
            st.append(int(m.group(2)))
    return st


def apply(t, fs):
    """rewrite the files, dropping what does not compile -> sites kept"""
    off = {f: set() for f in fs}
    last = None
    for rnd in range(60):
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
        n = {f: rewrite(t, f, off[f]) for f in fs}
        cmd = ["cargo", "check", "--offline", "-q", "--message-format=json"] + [x for p in PKGS for x in ("-p", p)] + ["--lib", "--keep-going"]
        r = subprocess.run(cmd, cwd=SCR, capture_output=True, text=True)
        bad = set()
        stuck = []
        for l in r.stdout.splitlines():
            d = json.loads(l)
            m = d.get("message")
            if not isinstance(m, dict) or m.get("level") != "error":
                continue
            spans = [s for s in m["spans"] if s["is_primary"]] + [s for s in m["spans"] if not s["is_primary"]]
            hit = False
            for s in spans:
                while s.get("expansion") and s["file_name"] not in off:
                    s = s["expansion"]["span"]
                f = s["file_name"]
                if f not in off:
                    continue
                text = open(os.path.join(SCR, f), "rb").read()
                st = inner(text, s["byte_start"]) or inner(text, s["byte_end"])
                if st:
                    bad.add((f, st[-1]))
                    hit = True
                    break
            if not hit and spans:
                s = spans[0]
                f = s["file_name"]
                stuck.append((f, s["line_start"], m["message"][:80]))
                # near: every place on the line and the one before
                if f in off:
                    ls = open(os.path.join(SCR, f), "rb").read().split(b"\n")
                    for w in (2, 6, 15, 40, 1000):
                        near = b"\n".join(ls[max(0, s["line_start"] - 1 - w) : s["line_end"] + w])
                        ks = re.findall(rb"/\*</?(\d+)>\*/", near)
                        if ks:
                            bad |= {(f, int(k)) for k in ks}
                            break
        if r.returncode == 0:
            return sum(n.values()) - sum(map(len, off.values())), sum(n.values())
        if not bad or bad == last:
            for f, k in list(bad):
                # the whole file, then
                off[f] |= set(range(n[f]))
            if not bad:
                print("  stuck:", stuck[:3], r.stderr[-300:])
                return None
        last = bad
        for f, k in bad:
            off[f].add(k)
    print("  does not settle", sorted(bad)[:4])
    return None


def judge():
    r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/runall.py"), "--repo", SCR], capture_output=True, text=True, env=dict(os.environ))
    return r.returncode == 0, [l[:300] for l in (r.stdout + r.stderr[-800:]).splitlines()]


def tests():
    r = subprocess.run("cargo test -p ibcx-core -p ibcx-airdrop -p ibcx-periphery -p ibcx-interface -p ibcx-math --lib --offline 2>&1 | grep -E '^error|FAILED|^test result' | head -8", shell=True, cwd=SCR, capture_output=True, text=True)
    return not ("FAILED" in r.stdout or "error" in r.stdout)


if __name__ == "__main__":
    noisy = 0
    ts = [a for a in sys.argv[1:] if not a.startswith("-")] or ALL
    for t in ts:
        reset()
        k = None
        for part in t.split("+"):
            # A+B: first A, then B on what A left
            if k is not None:
                for f in files():
                    p = os.path.join(SCR, f)
                    x = open(p).read()
                    open(p, "w").write(re.sub(r"/\*</?\d+>\*/", "", x))
                subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qam", "part"], cwd=SCR)
            fs = [f for f in files() if subprocess.run([TOOL, part, os.path.join(SCR, f)], capture_output=True, text=True).stderr.strip() != "0"]
            k = apply(part, fs)
            if k is None:
                break
        if k is None:
            print("%-16s NOT APPLIED" % t, flush=True)
            continue
        tt = tests() if "-t" in sys.argv else None
        ok, out = judge()
        print("%-16s %d of %d places in %d files: %s%s" % (t, k[0], k[1], len(fs), "quiet" if ok else "ALARMS", "" if tt is None else " tests ok" if tt else " TESTS FAIL"), flush=True)
        if not ok:
            noisy += 1
            for l in out[-40:]:
                print("   ", l)
            subprocess.run("git diff > /tmp/seed/sweep_%s.diff" % t, shell=True, cwd=SCR)
        sys.stdout.flush()
    reset()
    print(noisy, "noisy")
