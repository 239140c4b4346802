#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(50000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa import build
    from sa.report import Check

    c = Check(pid)
    try:
        build.ensure()
    except Exception as e:
        # no program to analyse: nothing can be decided
        print("cannot build the analysed program: %s" % str(e)[:2000])
        c.fail("build", "workspace", "the workspace could not be compiled for analysis: %s" % str(e)[:300])
        return c.finish(tier, seed)
    from sa.engine import Unsupported
    from sa.rules import REGISTRY

    fn = REGISTRY[pid]
    try:
        fn(c, tier)
    except Unsupported as e:
        c.fail("undecided", "engine", "the analysis does not support a construct it met (fail closed): %s" % str(e)[:400])
    except Exception as e:
        traceback.print_exc()
        c.fail("undecided", "rule", "the rule could not be evaluated on this program (fail closed): %s: %s" % (type(e).__name__, str(e)[:300]))
    return c.finish(tier, seed)


if __name__ == "__main__":
    sys.exit(main())
