#!/usr/bin/env python3
"""The property list: regenerates properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PROPS = []
NA = {}
CE = "contracts/core/src/execute/"
CS = "contracts/core/src/state/"


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props_core  # noqa
try:
    import props_rest  # noqa
except ImportError:
    pass

for f in ("props_core", "props_rest"):
    m = sys.modules.get(f)
    if m:
        for a in m.TABLE:
            P(**a)
        NA.update(getattr(m, "NOT_APPLICABLE", {}))

TECH = "static analysis: interprocedural value-flow / abstract interpretation of rustc MIR, deciding %s on every message-variant trace"
NOTE = (
    "Decided from the compiler's MIR of the current tree, no execution: all Ok-traces of the entry points in scope are summarised symbolically "
    "(guards, storage writes, ordered messages, response) and the rule must follow on each; anything the analysis cannot read fails closed. "
    "Trusts rustc's MIR, the models of the pinned libraries listed in the evidence, and the host's revert-on-error semantics."
)


def main():
    from sa.rules import REGISTRY

    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["files"] + [m[1] for m in p["mech"]] + [m[2] for m in p["state"]]:
                assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), s)) for s in p["mech"]],
                    "observe_at": list(p["observe"]),
                    "hook_needed": None,
                },
            }, sort_keys=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in REGISTRY:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s quick" % i,
                "thorough_cmd": "python3 check.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH % (p["tech"] or "must-guards and effects"),
                "level": "other",
                "level_note": NOTE + ((" " + p["note"]) if p["note"] else ""),
            })
        else:
            na.append({"property": i, "reason": NA[i]})
    m = {"version": 1, "setup_cmd": "python3 -m sa.build", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the driver reads the unmodified source through rustc. Regenerated by tools/spec.py."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
