#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS OUT [REGEX]: small syntactic changes of the code, one at a time,
on a scratch copy; records which checks report each.  Survivors that pass the
repository's tests are either equivalent or show a gap."""
import json
import os
import random
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SEL = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
SCR = "/tmp/seed/mut/repo%d" % W
BLD = "/tmp/seed/mut/build%d" % W
SRC = ["contracts/core/src", "contracts/airdrop/src", "contracts/periphery/src", "packages/interface/src", "packages/pool/src", "packages/math/src", "packages/utils/src"]
if not os.path.isdir(SCR):
    subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (SCR, SCR, SCR), shell=True)

OPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r"checked_add\(", ["checked_sub("]), (r"checked_sub\(", ["checked_add("]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]), (r"is_empty\(\)", ["len() > 1"]),
    (r"if !", ["if "]), (r"\bDecimal::one\(\)", ["Decimal::zero()"]), (r"\bDecimal::zero\(\)", ["Decimal::one()"]), (r"Uint128::zero\(\)", ["Uint128::one()"]),
    (r"to_uint_floor", ["to_uint_ceil"]), (r"to_uint_ceil", ["to_uint_floor"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"Bound::exclusive", ["Bound::inclusive"]), (r"Order::Ascending", ["Order::Descending"]),
    (r"info\.sender", ["env.contract.address"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bmint_fee\b", ["burn_fee"]), (r"\bburn_fee\b", ["mint_fee"]), (r"\bdeflation\b", ["inflation"]), (r"\binflation\b", ["deflation"]),
    (r"\bdenom_in\b", ["denom_out"]), (r"\bdenom_out\b", ["denom_in"]), (r"\breserve_denom\b", ["index_denom"]), (r"\bindex_denom\b", ["reserve_denom"]),
    (r"\bamount_in\b", ["amount_out"]), (r"\bamount_out\b", ["amount_in"]), (r"\bmax_amount_in\b", ["amount_out"]), (r"\bmin_amount_out\b", ["amount_in"]),
    (r"\brefund_to\b", ["sender"]), (r"\breceiver\b", ["sender"]), (r"\btotal_amount\b", ["total_claimed"]), (r"\btotal_claimed\b", ["total_amount"]),
    (r"\bmul_floor\b", ["mul_ceil"]), (r"\bmul_ceil\b", ["mul_floor"]), (r"checked_mul_ceil", ["checked_mul_floor"]), (r"checked_mul_floor", ["checked_mul_ceil"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"Some\((\w+)\)(?= =>)", []), (r"\bsim_amount_in\b", ["amount_out.amount"]),
    (r"\.checked_(add|sub|mul)\((\w+)\)\?", [""]), (r"\.filter\([^()]*\)", [""]), (r"\.rev\(\)", [""]), (r"\.unwrap_or\((\w+)\)", []),
    (r"(?<![\w.])([1-9][0-9_]*)(?![\w.:])", ["\\1 + 1"]), (r"reverse\(\);", ["len();"]),
    (r"from_ratio\(([\w.]+), ([\w.]+)\)", ["from_ratio(\\2, \\1)"]),
    (r"\.seconds\(\)", [".nanos()"]), (r"\.add_message(s?)\(([^()]*)\)", [""]),
    (r"may_load", ["may_load"]),
]


# larger ones: ignored failures, exchanged arguments and statements, lost halves of conditions
OPS2 = [
    (r"\.checked_(add|sub|mul)\(([^()]*)\)\?", [".saturating_\\1(\\2)"]),
    (r"(?<=\n)( +)([\w.]+\([^;{}]*\))\?;(?=\n)", ["\\1let _ = \\2;"]),
    (r"(?<=[\w>])\((&?[\w.]+), (&?[\w.]+)\)", ["(\\2, \\1)"]),
    (r"(?<=[\w>])\((&?[\w.]+), (&?[\w.]+), (&?[\w.]+)\)", ["(\\2, \\1, \\3)", "(\\1, \\3, \\2)"]),
    (r"(?<=if )([^{}&|;]+) && ([^{}&|;]+)(?= \{)", ["\\1", "\\2"]),
    (r"(?<=if )([^{}&|;]+) \|\| ([^{}&|;]+)(?= \{)", ["\\1", "\\2"]),
    (r"(?<=if )((?!let)[^{}&|;]+)(?= \{)", ["!(\\1)"]),
    (r"\bSome\(([^()]*)\)(?! =>| =)", ["None"]),
    (r"\.unwrap_or\(([^()]*)\)", [".unwrap_or_default()"]),
    (r"\.take\(([^()]*)\)", [""]), (r"\.skip\(([^()]*)\)", [""]), (r"\.skip_while\(([^()]*)\)", [""]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.find\(", [".rfind("]), (r"\.position\(", [".rposition("]),
    (r"(\w+): ([\w.]+(?:\.clone\(\))?),\n(\s+)(\w+): ([\w.]+(?:\.clone\(\))?),", ["\\1: \\5,\n\\3\\4: \\2,"]),
    (r"attr\((\"\w+\"), ([^\n]*)\),\n(\s+)attr\((\"\w+\"), ([^\n]*)\),", ["attr(\\1, \\5),\n\\3attr(\\4, \\2),"]),
    # statements: exchanged with the next, done twice
    (r"(?<=\n)( +)((?!return|use|let)[^\n{}]*;)\n\1((?!return|use|let)[^\n{}]*;)(?=\n)", ["\\1\\3\n\\1\\2"]),
    (r"(?<=\n)( +)(let [^\n{}]*;)\n\1((?!return|use)[^\n{}]*;)(?=\n)", ["\\1\\3\n\\1\\2"]),
    (r"(?<=\n)( +)((?!return|use|let)[^\n{}]*;)\n\1(let [^\n{}]*;)(?=\n)", ["\\1\\3\n\\1\\2"]),
    (r"(?<=\n)( +)([a-z][\w.]* (?:\+|-)?= [^\n{}]*;|[a-z_][\w.]*\.(?:push|extend|insert)\([^\n{}]*;)(?=\n)", ["\\1\\2\n\\1\\2"]),
    (r"\.load\(([^()]*)\)\?", [".may_load(\\1)?.unwrap_or_default()"]),
    (r"(Self::)?(\w+)\(inner\) => inner\.(\w+)", ["\\1\\2(inner) => inner.denom"]),
    (r"\bsender\b", ["claimer", "receiver", "refund_to", "redeem_to"]), (r"\bclaimer\b", ["sender"]),
    (r"\bburn_amount\b", ["amount"]), (r"\bcreator\b", ["signer"]), (r"\bgov\b", ["manager"]), (r"\bunit_gap\b", ["target_unit"]),
]
if os.environ.get("MUT2"):
    OPS = OPS2


def cut_tests(t):
    i = t.find("#[cfg(test)]")
    return len(t) if i < 0 else i


def mutants():
    r = []
    for d in SRC:
        for dp, dn, fs in os.walk(os.path.join(SCR, d)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(dp, f), SCR)
                if not f.endswith(".rs") or "/test" in p or "/bin/" in p:
                    continue
                t = subprocess.check_output(["git", "show", "HEAD:" + p], cwd=SCR, text=True)
                end = cut_tests(t)
                for rx, news in OPS:
                    for m in re.finditer(rx, t[:end]):
                        line = t[t.rfind("\n", 0, m.start()) + 1 : t.find("\n", m.end())]
                        if line.strip().startswith(("//", "use ", "#[", "pub fn", "fn ", "impl", "pub struct", "pub enum")):
                            continue
                        for n in news:
                            n = m.expand(n)
                            if n != m.group(0):
                                r.append((p, m.start(), m.end(), n))
                if os.environ.get("MUT2"):
                    continue
                # whole statements
                for m in re.finditer(r"\n( +)([a-z_A-Z][\w.&:]*\([^;{}]*\)\??;|[a-z_][\w.]* (?:=|\+=|-=) [^;{}]*;|[A-Z_]+[\w.]*\.(?:save|remove|update)\([^;]*;|[a-z_][\w.]*\.\w+\([^;{}]*;)(?=\n)", t[:end]):
                    if not m.group(2).startswith(("let ", "return")):
                        r.append((p, m.start(2), m.end(2), ""))
                for m in re.finditer(r"\n( +)if ([^{};]*) \{\n\s+return Err", t[:end]):
                    r.append((p, m.start(2), m.end(2), "false && (%s)" % m.group(2)))
    return sorted(set(r))


def main():
    env = dict(os.environ, IBCX_BUILD=BLD, IBCX_EVID="/tmp/seed/mut/evid%d" % W, IBCX_REPO=SCR, CARGO_TARGET_DIR="")
    env.pop("CARGO_TARGET_DIR")
    ms = mutants()
    random.Random(7).shuffle(ms)
    if SEL:
        ms = [m for m in ms if SEL.search(m[0])]
    done = set()
    if os.path.exists(OUT):
        done = {tuple(json.loads(l)["m"]) for l in open(OUT)}
    for i, m in enumerate(ms):
        if i % N != W or m in done:
            continue
        p, a, b, new = m
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=SCR)
        fp = os.path.join(SCR, p)
        t = open(fp).read()
        open(fp, "w").write(t[:a] + new + t[b:])
        ln = t.count("\n", 0, a) + 1
        line = (t[:a] + new + t[b:]).splitlines()[ln - 1].strip()
        was = t.splitlines()[ln - 1].strip()
        r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/runall.py"), "--repo", SCR], capture_output=True, text=True, env=env)
        ids = sorted(set(re.findall(r"^ALARM (\w+)", r.stdout, re.M)))
        und = sorted(set(re.findall(r"^ALARM (\w+) \[undecided\]", r.stdout, re.M)))
        if "could not compile" in r.stderr + r.stdout:
            st = "nocompile"
        elif ids:
            st = "caught"
        elif r.returncode:
            st = "error " + (r.stderr or r.stdout)[-300:]
        else:
            x = subprocess.run("cargo test -p ibcx-core -p ibcx-airdrop -p ibcx-periphery -p ibcx-interface -p ibcx-math -p ibcx-utils --lib --offline 2>&1 | grep -E '^error|FAILED' | head -3", shell=True, cwd=SCR, env=env, capture_output=True, text=True)
            st = "killed by tests" if x.stdout.strip() else "SURVIVED"
        rec = dict(m=m, st=st, ids=ids, und=und, at="%s:%d" % (p, ln), was=was, now=line)
        with open(OUT, "a") as f:
            f.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
