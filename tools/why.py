#!/usr/bin/env python3
"""why.py ID [RULE] [N]: print the paths of the first N failing obligations of a check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
from sa import build, report
build.ensure()
from sa.contract import *
from sa.rules import REGISTRY
pid = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else None
left = [int(sys.argv[3]) if len(sys.argv) > 3 else 1]
orig = report.Check.ob

def ob(self, rule, where, cond, what="", trace=None, *a, **k):
    if not cond and left[0] and (only is None or only == rule):
        left[0] -= 1
        print("#####", rule, where, what[:300])
        t = trace
        if t is not None and hasattr(t, "lits"):
            ts = [t.ret] + [x for x, _ in t.lits] + list(t.eff)
            ab, defs = abbrev(ts)
            for d, y in defs:
                print("   ", show(d), ":=", show(y))
            print("RET", show(ab[0]))
            for (q, p), a_ in zip(t.lits, ab[1:]):
                print("  ", "   " if p else "NOT", show(a_))
            for a_ in ab[1 + len(t.lits):]:
                print("   EFF", show(a_))
    return orig(self, rule, where, cond, what, trace, *a, **k)

report.Check.ob = ob
c = report.Check(pid)
REGISTRY[pid](c, "quick")
