#!/usr/bin/env python3
"""runall.py [--repo DIR] [ID...]: every check in one process (shared analysis), for
development: prints only the alarms."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
a = sys.argv[1:]
if a[:1] == ["--repo"]:
    os.environ["IBCX_REPO"] = a[1]
    os.environ.setdefault("IBCX_BUILD", "/tmp/seed/build")
    os.environ.setdefault("IBCX_EVID", "/tmp/seed/evid")
    a = a[2:]
sys.setrecursionlimit(50000)
from sa import build  # noqa
from sa import report  # noqa
import time, traceback  # noqa

build.ensure()
from sa.engine import Unsupported  # noqa
from sa.rules import REGISTRY  # noqa

SH = {}
bad = 0
for pid in a or sorted(REGISTRY):
    c = report.Check(pid)
    c.contracts = SH
    t0 = time.time()
    try:
        REGISTRY[pid](c, "quick")
    except Unsupported as e:
        c.fail("undecided", "engine", str(e)[:300])
    except Exception as e:
        traceback.print_exc()
        c.fail("undecided", "rule", str(e)[:300])
    known = report.load_known(pid)
    for k, v in c.viol.items():
        if k in known:
            continue
        bad += 1
        print("ALARM %s [%s] %s: %s" % (pid, v["rule"], v["where"], v["what"][:int(os.environ.get("W", "250"))]))
    if os.environ.get("V"):
        print(pid, "ok" if not c.viol else "", "%.1fs" % (time.time() - t0))
print("%d alarm(s)" % bad)
sys.exit(1 if bad else 0)
