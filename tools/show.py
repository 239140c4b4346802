#!/usr/bin/env python3
"""show.py CRATE FN [VARIANT.PATH] [N] : list the summaries of an entry."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.contract import *
c = Contract(sys.argv[1])
e = c.run(sys.argv[2])
v = sys.argv[3] if len(sys.argv) > 3 else None
n = int(sys.argv[4]) if len(sys.argv) > 4 else 100
import collections
if v is None:
    k = collections.Counter((t.name, t.ok) for t in e.traces)
    for (a, b), m in sorted(k.items()): print(a, "ok" if b else "err", m)
    sys.exit()
if v == ".": v = ""
ts = [t for t in e.traces if not t.err and t.name == v][:n]
for t in ts:
    terms_ = [t.ret] + [c for c, _ in t.lits] + list(t.eff)
    ab, defs = abbrev(terms_)
    print("=" * 20, t.name, "lits", len(t.lits))
    for d, y in defs: print("   ", show(d), ":=", show(y))
    print(" RET", show(ab[0]))
    for (c0, p), a in zip(t.lits, ab[1:]): print("   ", "  " if p else "NOT", show(a))
    for a in ab[1 + len(t.lits):]: print("    EFF", show(a))
